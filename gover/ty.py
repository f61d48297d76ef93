"""Go types, as exported structurally by the exporter (keys are canonical strings)."""


class Ty:
    __slots__ = ("k", "key", "d")

    def __init__(self, k, key, d):
        self.k, self.key, self.d = k, key, d

    def __repr__(self):
        return self.key


INT_RANGES = {
    "int": (True, 64), "int8": (True, 8), "int16": (True, 16), "int32": (True, 32), "int64": (True, 64),
    "uint": (False, 64), "uint8": (False, 8), "uint16": (False, 16), "uint32": (False, 32), "uint64": (False, 64),
    "uintptr": (False, 64), "byte": (False, 8), "rune": (True, 32),
    "untyped int": (True, 64), "untyped rune": (True, 32),
}


class World:
    def __init__(self, dump):
        self.module = dump["module"]
        self.types = {}
        self.raw = dump["types"]
        self.decl = {}
        for key, d in self.raw.items():
            if d.get("k") == "named" and d.get("under"):
                if all(t.startswith("$") for t in d["targs"]):
                    self.decl.setdefault(d["name"], (d["targs"], d["under"]))
        self.funcs = dump["funcs"]
        self.globals = dump["globals"]

    def ty(self, key):
        t = self.types.get(key)
        if t is None:
            d = self.raw.get(key)
            if d is None:
                raise KeyError("type " + key)
            t = Ty(d["k"], key, d)
            self.types[key] = t
        return t

    def mk(self, key, d):
        t = self.types.get(key)
        if t is None:
            if key in self.raw:
                return self.ty(key)
            t = Ty(d["k"], key, d)
            self.types[key] = t
        return t

    # constructors
    def ptr(self, e):
        return self.mk("*" + e.key, {"k": "ptr", "elem": e.key})

    def slice(self, e):
        return self.mk("[]" + e.key, {"k": "slice", "elem": e.key})

    def basic(self, n):
        return self.mk(n, {"k": "basic", "name": n})

    def elem(self, t):
        return self.ty_(t.d["elem"])

    def ty_(self, key):
        return self.types.get(key) or self.ty(key)

    def subst(self, t, env):
        if not env:
            return t
        if isinstance(t, str):
            t = self.ty_(t)
        if "$" not in t.key:
            return t
        k, d = t.k, t.d
        S = lambda key: self.subst(self.ty_(key), env)
        if k == "tparam":
            return env.get(t.key, t)
        if k == "ptr":
            return self.ptr(S(d["elem"]))
        if k == "slice":
            return self.slice(S(d["elem"]))
        if k == "array":
            e = S(d["elem"])
            return self.mk("[%d]%s" % (d["len"], e.key), {"k": "array", "elem": e.key, "len": d["len"]})
        if k == "map":
            a, b = S(d["key"]), S(d["elem"])
            return self.mk("map[%s]%s" % (a.key, b.key), {"k": "map", "key": a.key, "elem": b.key})
        if k == "chan":
            e = S(d["elem"])
            return self.mk("chan " + e.key, {"k": "chan", "elem": e.key})
        if k == "tuple":
            es = [S(x) for x in d["elems"]]
            return self.mk("(" + ",".join(e.key for e in es) + ")", {"k": "tuple", "elems": [e.key for e in es]})
        if k == "func":
            ps = [S(x).key for x in d["params"]]
            rs = [S(x).key for x in d["results"]]
            key = "func(" + ",".join(ps) + ("..." if d["variadic"] else "") + ")(" + ",".join(rs) + ")"
            return self.mk(key, {"k": "func", "params": ps, "results": rs, "variadic": d["variadic"]})
        if k == "struct":
            fs = [{"name": f["name"], "type": S(f["type"]).key, "emb": f.get("emb")} for f in d["fields"]]
            key = "struct{" + ";".join(f["name"] + " " + f["type"] for f in fs) + "}"
            return self.mk(key, {"k": "struct", "fields": fs})
        if k == "named":
            ts = [S(x).key for x in d["targs"]]
            key = d["name"] + "[" + ",".join(ts) + "]"
            nd = {"k": "named", "name": d["name"], "targs": ts}
            if "opaque" in d:
                nd["opaque"] = d["opaque"]
            return self.mk(key, nd)
        return t

    def under(self, t):
        while t.k == "named":
            d = t.d
            if "under" in d:
                t = self.ty_(d["under"])
                continue
            if d["name"] in self.decl:
                ps, u = self.decl[d["name"]]
                env = {p: self.ty_(a) for p, a in zip(ps, d["targs"])}
                t = self.subst(self.ty_(u), env)
                continue
            return t
        return t

    def fields(self, t):
        """[(name, Ty)] of a struct (named or not)"""
        u = self.under(t)
        if u.k != "struct":
            raise TypeError("not a struct: " + t.key)
        return [(f["name"], self.ty_(f["type"])) for f in u.d["fields"]]

    def is_struct(self, t):
        return self.under(t).k == "struct"

    def intinfo(self, t):
        u = self.under(t)
        if u.k == "basic":
            return INT_RANGES.get(u.d["name"])
        return None

    def is_float(self, t):
        u = self.under(t)
        return u.k == "basic" and u.d["name"] in ("float64", "float32", "untyped float")

    def is_string(self, t):
        u = self.under(t)
        return u.k == "basic" and u.d["name"] in ("string", "untyped string")

    def is_bool(self, t):
        u = self.under(t)
        return u.k == "basic" and u.d["name"] in ("bool", "untyped bool")

    def is_iface(self, t):
        u = self.under(t)
        return u.k == "iface" or (t.k == "named" and t.d.get("opaque") == "iface") or (u.k == "named" and u.d.get("opaque") == "iface")
