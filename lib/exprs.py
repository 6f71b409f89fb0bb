"""Expressions: Python trees <-> the driver's prefix text -> records for TLC, and a
generator of them."""
import vals as v
from vals import E, N, B, I, F, S, L, M, U, V, W, P, G


class X:
    __slots__ = ("k", "x", "s", "b", "i", "v", "o")

    def __init__(self, k, *x, s=(), b=(), i=(), v=None, o=b""):
        self.k, self.x, self.v, self.o = k, list(x), v, o
        self.s = [t if isinstance(t, bytes) else t.encode() for t in s]
        self.b, self.i = list(b), list(i)

    def text(self):
        w = [self.k, v.hx(self.o), str(len(self.b))] + [str(int(f)) for f in self.b] + [str(len(self.s))] + [v.hx(t) for t in self.s]
        w += [str(len(self.i))] + [str(n) for n in self.i] + (["1", v.text(self.v)] if self.v is not None else ["0"]) + [str(len(self.x))]
        return " ".join(w + [y.text() for y in self.x])

    def tla(self, wire):
        return {"k": self.k, "x": [y.tla(wire) for y in self.x], "s": [list(t) for t in self.s], "b": [bool(f) for f in self.b], "i": self.i,
                "v": v.tla(self.v if self.v is not None else E), "w": list(wire[v.text(self.v)]) if self.v is not None else [], "o": list(self.o)}

    def all(self):
        yield self
        for y in self.x:
            yield from y.all()

    def size(self):
        return sum(1 for _ in self.all())

    def copy(self):
        y = X(self.k, *[z.copy() for z in self.x], s=self.s, b=self.b, i=self.i, v=self.v, o=self.o)
        return y


NOT_ENCODABLE = {"InputProperty", "VarProperty", "VersionedVar", "LabelAttribute", "TSPrefix", "TSWildcard", "TSRegexp", "TSFuzzy"}


def encodable(e):
    return all(y.k not in NOT_ENCODABLE and not (y.k == "Var" and not y.b[0]) and not (y.k == "UUID" and not y.s[0]) for y in e.all())


ARITH = ["Add", "Minus", "Multiply", "Division", "Mod"]
REL = ["RelEQ", "RelNE", "RelLT", "RelLE", "RelGT", "RelGE"]
TEXT = ["Contains", "NotContains", "StartsWith", "NotStartsWith", "EndsWith", "NotEndsWith"]
LOGIC = ["LogicalAnd", "LogicalOr", "LogicalXor"]
QUANT = ["all", "any", "single", "none"]
NUMS = [-9, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 10, 100]
BIG = [2 ** 63 - 1, -2 ** 63, 2 ** 62, 2 ** 31, -2 ** 31, 10 ** 12]
WORDS = ["", "a", "b", "ab", "abc", "A", "Abc", "TRUE", "false", "12", "-7", "x1", "3.5", "aab", b"a\0b", "name"]
KEYS = ["a", "b", "n", "nm"]


class Gen:
    """typed expressions: most fit their place"""
    def __init__(self, rng, calls=None):
        self.rng = rng
        self.calls = calls
        self.plain = False

    def pick(self, s): return s[self.rng.randrange(len(s))]
    def p(self, q): return self.rng.random() < q

    # ---- constants
    def scalar(self, floats=True):
        r = self.rng.random()
        if r < .35: return I(self.pick(NUMS) if self.p(.9) else self.pick(BIG))
        if r < .6: return S(self.pick(WORDS))
        if r < .75: return B(self.p(.5))
        if r < .83 and floats: return F(self.rng.randrange(-24, 25) / 4.0)
        if r < .9: return self.pick([N(0), N(0), N(0), N(3), N(1), N(5), N(6), E, E])
        return self.value(self.pick(["date", "time", "datetime"]))

    def value(self, t, d=2):
        r = self.rng
        if t == "bool": return B(self.p(.5))
        if t == "int": return I(self.pick(NUMS) if self.p(.93) else self.pick(BIG))
        if t == "float": return F(r.randrange(-24, 25) / 4.0)
        if t == "str": return S(self.pick(WORDS))
        if t == "date": return ("D", r.randrange(1990, 2030), r.randrange(1, 13), r.randrange(1, 29))
        if t == "time": return ("T", r.randrange(24), r.randrange(60), r.randrange(60), r.randrange(1000000))
        if t == "datetime": return ("X",) + self.value("date")[1:] + self.value("time")[1:]
        if t == "ilist": return L(*[self.value("int") if self.p(.9) else self.scalar() for _ in range(r.randrange(5))])
        if t == "list": return L(*[self.any(d - 1) for _ in range(r.randrange(5))])
        if t == "map": return M(**self.few({k: self.any(d - 1) for k in KEYS if self.p(.5)}))
        if t == "set": return ("U", self.distinct([self.scalar(False) for _ in range(r.randrange(2 if self.single else 4))]))
        if t == "vertex": return V(self.pick([S("v1"), S("v2"), S("v3"), I(4)]), *[(n, self.few({k: self.scalar() for k in KEYS if self.p(.5)})) for n in ("t1", "t2") if self.p(.6)])
        if t == "edge": return W(self.pick([S("v1"), S("v2"), S("v3")]), self.pick([S("v1"), S("v2"), S("v3")]), self.pick([1, 1, -1]), "like", r.randrange(3), **self.few({k: self.scalar() for k in KEYS if self.p(.5)}))
        if t == "path":
            return P(self.value("vertex"), *[(self.value("vertex"), 1, b"like", r.randrange(3), {}) for _ in range(r.randrange(3))])
        if t == "dataset": return G(["c1", "c2"], *[[self.scalar(), self.scalar()] for _ in range(r.randrange(3))])
        if t == "null": return self.pick([N(0), N(0), N(3), N(4), N(6), E])
        return self.any(d)

    single = False      # no two entries in what has no order of its own

    def few(self, d): return dict(list(d.items())[:1]) if self.single else d

    def distinct(self, vs):
        out, seen = [], set()
        for x in vs:
            k = v.text(x) if x[0] != "N" else "N"
            if k not in seen:
                seen.add(k)
                out.append(x)
        return out

    def any(self, d=2):
        if d <= 0 or self.p(.6): return self.scalar()
        return self.value(self.pick(["ilist", "list", "map", "set", "vertex", "edge", "path", "dataset", "null"]), d)

    def const(self, val): return X("Constant", v=val)

    # ---- parts that never give a map, set or data set, nor a float
    def safe(self, d):
        if d <= 0 or self.p(.5): return self.const(self.scalar(False))
        r = self.rng.random()
        if r < .3: return X(self.pick(["Add", "Minus", "Multiply", "Division", "Mod"]), self.const(self.value("int")), self.const(self.value("int")))
        if r < .6: return X(self.pick(REL), self.ex("any", d - 1), self.ex("any", d - 1))
        if r < .8: return X("TypeCasting", self.ex("any", d - 1), i=[self.pick([1, 2, 4])])
        if r < .9: return X(self.pick(["IsNull", "IsNotNull", "IsEmpty", "IsNotEmpty"]), self.ex("any", d - 1))
        return self.const(L(*[self.scalar(False) for _ in range(self.rng.randrange(3))]))

    PROPS = {"bool": "b", "int": "i", "float": "f", "str": "s", "ilist": "l", "list": "ll", "map": "m", "vertex": "vx", "edge": "e", "path": "p", "date": "d", "null": "n", "set": "u",
             "time": "t", "datetime": "dt", "dataset": "g"}

    def leaf(self, t):
        r = self.rng.random()
        if t in ("any", "num", "safe"): t = {"num": self.pick(["int", "int", "float"])}.get(t) or self.pick(list(self.PROPS))
        if r < .4 or t not in self.PROPS: return self.const(self.value(t))
        k = self.PROPS[t]
        if r < .6: return X("Var", s=["v" + k], b=[not (self.plain and self.p(.4))])
        if r < .66 and self.scope: return X("Var", s=[self.pick(self.scope)], b=[True])
        if r < .72: return X("Column", i=[self.pick([0, 1, 2, 3, 4, 5, 6, -1])])
        if r < .76 and self.plain: return X("InputProperty", s=["$-", "", k])
        if r < .8 and self.plain: return X("VarProperty", s=["$", "w", k])
        if r < .84 and self.plain: return X("VersionedVar", *([] if self.p(.2) else [self.const(I(self.pick([0, 1, 2, 3, -1, -2, -5, 9])) if self.p(.9) else self.scalar())]), s=["v" + k])
        if r < .88: return X("TagProperty", s=["", "t1", k])
        if r < .91: return X("SrcProperty", s=["$^", "t1", k])
        if r < .94: return X("DstProperty", s=["$$", "t1", k])
        if r < .97: return X("EdgeProperty", s=["", "like", k])
        return self.pick([X("Vertex"), X("Edge"), X("Label", s=["lb"]), X("UUID", s=["u1"]), X("EdgeSrc", s=["", "like", "_src"]), X("EdgeType", s=["", "like", "_type"]),
                          X("EdgeRank", s=["", "like", "_rank"]), X("EdgeDst", s=["", "like", "_dst"])])

    def ex(self, t, d):
        if self.p(.1): t = "any"
        if t == "any": t = self.pick(["bool", "int", "float", "str", "ilist", "list", "map", "vertex", "edge", "date", "null", "set", "path", "num"])
        if d <= 0 or self.p(.15): return self.leaf(t)
        r = self.rng.random()
        if r < .05: return X("Case", *self.case(t, d))if False else self.case(t, d)
        if r < .08 and self.calls: return self.calls(self, d)
        if r < .11: return X("Subscript", X("List", *[self.ex(t, d - 1) for _ in range(self.rng.randrange(1, 4))]), self.ex("int", d - 1))
        if r < .14: return X("Attribute", X("Map", self.ex(t, d - 1), self.ex("any", d - 1), s=["a", self.pick(["b", "a"])]), self.key())
        if r < .17: return X("Subscript", X("Map", self.ex(t, d - 1), s=["a"]), self.const(S(self.pick(["a", "a", "b"]))))
        if r < .2: return X("Reduce", *self.reduce(t, d)[0], s=["acc%d" % d, "it%d" % d], o=self.origin())
        f = getattr(self, "g_" + t, None)
        return f(d) if f else self.leaf(t)

    def origin(self): return b"orig %d" % self.rng.randrange(9) if self.p(.3) else b""

    def within(self, *names):
        g = self
        class S_:
            def __enter__(s): s.old = g.scope; g.scope = g.scope + list(names)
            def __exit__(s, *a): g.scope = s.old
        return S_()

    def reduce(self, t, d):
        init, coll = self.ex(t, d - 1), self.ex("ilist", d - 1)
        with self.within("acc%d" % d, "it%d" % d):
            m = self.pick([X("Add", X("Var", s=["acc%d" % d], b=[True]), X("Var", s=["it%d" % d], b=[True])), self.ex(t, d - 1)])
        return (init, coll, m),

    def key(self): return self.const(S(self.pick(KEYS))) if self.p(.8) else X("Label", s=[self.pick(KEYS)])

    def case(self, t, d):
        has, other, gen = self.p(.5), self.p(.7), self.p(.7)
        n = self.rng.randrange(1, 4)
        if not gen: has, other, n = False, True, 1
        c = []
        ct = self.pick(["int", "str", "bool"])
        if has: c.append(self.ex(ct, d - 1))
        if other: c.append(self.ex(t, d - 1))
        for _ in range(n): c += [self.ex(ct if has else "bool", d - 1), self.ex(t, d - 1)]
        return X("Case", *c, b=[gen, has, other])

    def g_null(self, d): return self.leaf("null")

    def g_bool(self, d):
        r = self.rng.random()
        e = self.ex
        if r < .2:
            t = self.pick(["num", "str", "date", "any", "list", "bool"])
            return X(self.pick(REL), e(t, d - 1), e(t, d - 1))
        if r < .42: return X(self.pick(LOGIC), *[e(self.pick(["bool", "bool", "bool", "null"]), d - 1) for _ in range(self.pick([2, 2, 3, 4]))])
        if r < .52: return X(self.pick(TEXT), e("str", d - 1), e("str", d - 1))
        if r < .6:
            k = self.pick(["RelIn", "RelNotIn"])
            if self.p(.5): return X(k, e("any", d - 1), X("List", *[e("any", d - 1) for _ in range(self.rng.randrange(1, 4))]))
            return X(k, self.safe(d - 1), e(self.pick(["set", "map", "ilist", "any"]), d - 1))
        if r < .65: return X("UnaryNot", e("bool", d - 1))
        if r < .72: return X(self.pick(["IsNull", "IsNotNull", "IsEmpty", "IsNotEmpty"]), e("any", d - 1))
        if r < .75: return X("TypeCasting", e("any", d - 1), i=[1])
        if r < .78: return X("RelREG", e("str", d - 1), self.const(S(self.pick(["a", "ab", ".*", "a.*", "(", "abc"]))))
        if r < .95: return self.quant(d)
        c = X("Attribute", e("map", d - 1), self.key()) if self.p(.5) else X("Subscript", e(self.pick(["map", "vertex", "edge", "any"]), d - 1), self.const(S(self.pick(KEYS))) if self.p(.8) else e("any", 0))
        return X("Predicate", c, s=["exists", ""], b=[False], o=self.origin())

    def quant(self, d):
        coll = self.ex("ilist", d - 1)
        with self.within("q%d" % d):
            f = X(self.pick(REL), X("Var", s=["q%d" % d], b=[True]), self.const(self.value("int"))) if self.p(.6) else self.ex("bool", d - 1)
        return X("Predicate", coll, f, s=[self.pick(QUANT), "q%d" % d], b=[True], o=self.origin())

    def g_int(self, d):
        r = self.rng.random()
        if r < .6: return X(self.pick(ARITH), self.ex("int", d - 1), self.ex("int", d - 1))
        if r < .72: return X(self.pick(["UnaryPlus", "UnaryNegate"]), self.ex("int", d - 1))
        if r < .8: return X("TypeCasting", self.ex("any", d - 1), i=[2])
        if r < .88: return X(self.pick(["UnaryIncr", "UnaryDecr"]), X("Var", s=["vi"], b=[True]) if not self.plain or self.p(.5) else X("VersionedVar", self.const(I(self.pick([0, -1, 1]))), s=["vi"]))
        if r < .9: return X("UnaryIncr", self.ex("int", d - 1))
        if r < .94: return X("Minus", self.ex("date", d - 1), self.ex("date", d - 1))
        return X("Attribute", self.ex(self.pick(["date", "map", "edge"]), d - 1), self.const(S(self.pick(["year", "month", "DAY", "n", "_rank", "hour"]))))

    def g_num(self, d): return self.g_int(d) if self.p(.5) else self.g_float(d)

    def g_float(self, d):
        if self.p(.2): return X("TypeCasting", self.ex("any", d - 1), i=[3])
        return X(self.pick(ARITH), self.ex("num", d - 1), self.ex("float", d - 1))

    def g_str(self, d):
        r = self.rng.random()
        if r < .5: return X("Add", self.ex("str", d - 1), self.ex(self.pick(["str", "int", "bool", "date"]), d - 1))
        if r < .7: return X("TypeCasting", self.ex("any", d - 1), i=[4])
        return X("Attribute", self.ex(self.pick(["vertex", "edge", "map"]), d - 1), self.const(S(self.pick(["_vid", "_src", "_dst", "_type", "nm", "a", "_x"]))))

    def g_date(self, d): return X(self.pick(["Add", "Minus"]), self.ex("date", d - 1), self.ex("int", d - 1))

    def g_ilist(self, d):
        r = self.rng.random()
        if r < .35: return X("List", *[self.ex("int", d - 1) for _ in range(self.rng.randrange(1, 5))])
        if r < .65: return self.compr(d)
        if r < .85:
            lo, hi = self.p(.7), self.p(.7)
            if not lo and not hi: lo = True
            return X("SubscriptRange", *([self.ex("ilist", d - 1)] + ([self.ex("int", d - 1)] if lo else []) + ([self.ex("int", d - 1)] if hi else [])), b=[lo, hi])
        return X("Add", self.ex("ilist", d - 1), self.ex(self.pick(["ilist", "int"]), d - 1))

    def compr(self, d):
        f, m = self.p(.6), self.p(.6)
        x = [self.ex("ilist", d - 1)]
        with self.within("c%d" % d):
            var = X("Var", s=["c%d" % d], b=[True])
            if f: x.append(X(self.pick(REL), var, self.const(self.value("int"))) if self.p(.7) else self.ex("bool", d - 1))
            if m: x.append(X(self.pick(ARITH), var.copy(), self.ex("int", d - 1)) if self.p(.7) else self.ex("any", d - 1))
        return X("ListComprehension", *x, s=["c%d" % d], b=[f, m], o=self.origin())

    def g_list(self, d):
        if self.p(.5): return X("List", *[self.ex("any", d - 1) for _ in range(self.rng.randrange(1, 4))])
        if self.p(.5): return X("Add", self.ex("list", d - 1), self.ex("any", d - 1))
        return self.g_ilist(d)

    def g_map(self, d):
        n = self.rng.randrange(1, 4)
        return X("Map", *[self.ex("any", d - 1) for _ in range(n)], s=[self.pick(KEYS) for _ in range(n)])

    def g_set(self, d): return X("Set", *[self.safe(d - 1) for _ in range(self.rng.randrange(1, 4))])

    def g_path(self, d):
        ids = [S("v1"), S("v2"), S("v3")]
        xs, at = [self.pick([self.const(ids[0]), self.const(V(ids[0], ("t1", {"a": I(1)}))), self.ex("vertex", d - 1), self.const(self.value("path"))])], ids[0]
        if xs[0].k == "Constant" and xs[0].v[0] == "P":
            c = xs[0].v
            at = c[2][-1][0][1] if c[2] else c[1][1]
        for _ in range(self.rng.randrange(3)):
            to = self.pick(ids)
            xs.append(self.const(W(at if self.p(.93) else self.pick(ids), to, 1, "like", self.rng.randrange(2))) if self.p(.9) else self.ex("any", 0))
            at = to
            if self.p(.7): xs.append(self.const(self.pick([at, V(at, ("t2", {"b": I(2)})), V(at)])) if self.p(.93) else self.ex("any", 0))
        return X("PathBuild", *xs)

    scope = ()

    def make(self, depth, plain=False, limit=30):
        while True:
            self.scope, self.plain = [], plain
            e = self.ex(self.pick(["bool", "bool", "int", "int", "str", "ilist", "list", "map", "float", "path", "set", "date", "any"]), depth)
            if e.size() <= limit: return e

    def variant(self, e):
        """e, changed in one place"""
        e = e.copy()
        y = self.pick(list(e.all()))
        r = self.rng.random()
        if y.k == "Constant":
            y.v = self.scalar() if y.v[0] not in "MUGVWP" else y.v
            if self.p(.3) and y.v[0] == "I": y.v = F(y.v[1]) if abs(y.v[1]) < 1000 else y.v
        elif y.k in ARITH: y.k = self.pick(ARITH)
        elif y.k in REL: y.k = self.pick(REL)
        elif y.k in TEXT: y.k = self.pick(TEXT)
        elif y.k in LOGIC:
            if r < .5: y.k = self.pick(LOGIC)
            else: y.x.append(self.const(B(1)))
        elif y.k in ("List", "Set", "PathBuild") and r < .5 and len(y.x) > 1: y.x.pop()
        elif y.k == "TypeCasting": y.i = [self.pick([1, 2, 3, 4])]
        elif y.k == "Column": y.i = [self.pick([0, 1, 2])]
        elif y.k == "Predicate" and y.s[0] != b"exists": y.s[0] = self.pick(QUANT).encode()
        elif y.k == "Predicate" or (y.k in ("ListComprehension", "Reduce") and r < .4): y.o = self.origin()
        elif y.k in ("Var", "Label", "UUID") : y.s = [self.pick([b"vi", b"vs", b"v"])]
        elif y.k == "Map" and r < .6: y.s[0] = self.pick(KEYS).encode()
        elif y.k == "Case" and y.b[0] and len(y.x) - y.b[1] - y.b[2] > 2: y.x = y.x[:-2]
        elif len(y.x) == 2 and y.k not in ("Attribute", "Reduce", "Predicate", "ListComprehension", "RelIn", "RelNotIn", "Case", "SubscriptRange"): y.x.reverse()
        return e

    def context(self):
        props = []
        for w, s in (("input", ""), ("var", "w"), ("tag", "t1"), ("src", "t1"), ("dst", "t1"), ("edge", "like")):
            for t, k in self.PROPS.items():
                if self.p(.85): props.append((w, s.encode(), k.encode(), self.value(t) if self.p(.85) else self.any()))
            if w == "edge":
                for k in ("_src", "_type", "_rank", "_dst"): props.append((w, s.encode(), k.encode(), self.scalar()))
        vs = []
        for _ in range(2):
            for t, k in self.PROPS.items():
                if self.p(.8): vs.append((b"v" + k.encode(), self.value(t) if self.p(.85) else self.any()))
        cols = [self.value(t) for t in ("int", "str", "ilist", "any", "bool", "any")]
        return {"props": props, "cols": cols, "vertex": self.value("vertex"), "edge": self.value("edge"), "vars": vs}


def ctx_text(c):
    h = v.hx
    w = [str(len(c["props"]))] + ["%s %s %s %s" % (a, h(s), h(k), v.text(x)) for a, s, k, x in c["props"]]
    w += [str(len(c["cols"]))] + [v.text(x) for x in c["cols"]] + [v.text(c["vertex"]), v.text(c["edge"])]
    return " ".join(w + [str(len(c["vars"]))] + [h(n) + " " + v.text(x) for n, x in c["vars"]])


def ctx_tla(c):
    return {"props": [{"w": a, "s": list(s), "k": list(k), "v": v.tla(x)} for a, s, k, x in c["props"]], "cols": [v.tla(x) for x in c["cols"]],
            "vertex": v.tla(c["vertex"]), "edge": v.tla(c["edge"]), "vars": [{"n": list(n), "v": v.tla(x)} for n, x in reversed(c["vars"])]}


def log_tla(t):
    r = v._R(t.split())
    out = [{"n": list(r.h()), "v": v.tla(r.val())} for _ in range(r.n())]
    return out[::-1]
