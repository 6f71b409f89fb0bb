"""Expressions: evaluation (C19); text, encoding, copies and equality (C36)."""
import concurrent.futures, glob, json, os
import vf
import vals as v
import exprs as xp
from exprs import X
from vals import E, N, B, I, F, S, L, M, U, V, W, P, G
from value import DT


def sources():
    ex = sorted(os.path.relpath(f, vf.SRC) for f in glob.glob(vf.SRC + "/common/expression/*.cpp"))
    return DT + ex + ["common/function/FunctionManager.cpp", "common/function/AggFunctionManager.cpp", "common/time/TimeUtils.cpp", "common/time/TimezoneInfo.cpp",
                      "common/time/TimeConversion.cpp", "common/time/WallClock.cpp", "common/time/detail/TscHelper.cpp", "common/base/Status.cpp", "common/base/Base.cpp"]


def build(c):
    return c.build("expr", [vf.VERIF + "/harness/expr_driver.cpp"] + sources(), shim=True)


class Bed:
    """Expressions and contexts, and what the code made of them."""
    def __init__(self, c, exe, what):
        self.c, self.exe, self.what = c, exe, what
        self.exprs, self.ctxs, self.evs = [X("Constant", v=B(1)), X("Constant", v=B(0))], [], []

    def add(self, e):
        self.exprs.append(e)
        return len(self.exprs)

    def define(self, i):
        e = self.exprs[i - 1]
        return ("expr " if xp.encodable(e) else "plain ") + e.text()

    def line(self, e, ix=lambda i: i - 1, cx=lambda i: i - 1):
        if e["op"] == "expr": return self.define(e["x"])
        if e["op"] == "eval": return "eval %s %d %d" % (e["how"], ix(e["x"]), cx(e["c"]))
        if e["op"] == "eq": return "eq %d %d" % (ix(e["x"]), ix(e["y"]))
        if e["op"] == "cast": return "cast %d %d" % (e["from"], e["to"])
        return e["line"]

    def run(self):
        consts = {}
        for e in self.exprs:
            for y in e.all():
                if y.v is not None: consts[v.text(y.v)] = None
        keys = list(consts)
        head = [{"op": "expr", "x": i + 1} for i in range(len(self.exprs))]
        evs = head + self.evs
        script = ["reset"] + ["wire " + k for k in keys] + ["ctx " + xp.ctx_text(c) for c in self.ctxs] + [self.line(e) for e in evs]
        out, crash = self.c.drive(self.exe, script, 400)
        n0 = 1 + len(keys) + len(self.ctxs)
        bad = next((k for k, o in enumerate(out) if not o.startswith("{")), None)
        if bad is not None:
            crash, out = out[bad], out[:bad]
        if crash or len(out) < len(script):
            k = min(len(out), len(script) - 1)
            e = evs[k - n0] if k >= n0 else None
            sub = script[:k + 1]
            if e is not None:
                ids = [e[q] for q in ("x", "y") if q in e]
                hist = [p for p in evs[:k - n0] if p["op"] == "eval" and p["x"] == e.get("x")] if e["op"] == "eval" else []
                cs = sorted({p["c"] for p in hist + [e] if "c" in p})
                sub = ["reset"] + ["ctx " + xp.ctx_text(self.ctxs[j - 1]) for j in cs]
                if e["op"] == "expr": sub.append(self.define(e["x"]))
                else:
                    sub += [self.define(i) for i in ids]
                    sub += [self.line(p, lambda i: ids.index(i), lambda j: cs.index(j)) for p in hist + [e]]
            out2, crash2 = self.c.drive(self.exe, sub)
            bad2 = next((o for o in out2 if not o.startswith("{")), None)
            if not (crash2 or bad2):
                sub = script[:k + 1]
                out2, crash2 = self.c.drive(self.exe, sub, 400)
                bad2 = next((o for o in out2 if not o.startswith("{")), None)
                if not (crash2 or bad2):
                    raise vf.CheckError("%s: a crash did not repeat: %s" % (self.what, crash))
            x = e and e.get("x")
            raise vf.Violation("%s: %s: %s" % (self.what, sub[-1][:600], crash2 or bad2), {"kind": "replay", "driver": "expr", "script": sub, "why": crash2 or bad2})
        wire = {k: json.loads(o)["w"] for k, o in zip(keys, out[1:])}
        self.res = []
        for e, o in zip(evs, out[n0:]):
            r = {k: q for k, q in e.items() if k != "line"}
            r.update(json.loads(o))
            if e["op"] == "expr": r["can"] = xp.encodable(self.exprs[e["x"] - 1])
            if "vars" in r:
                log = xp.log_tla(r.pop("vars"))     # the latest first; what the context began with is told by its number
                r["e"] = log[:len(log) - len(self.ctxs[e["c"] - 1]["vars"])]
            if isinstance(r.get("r"), str): r["r"] = v.tla(v.parse(r["r"]))
            self.res.append(r)
        self.wire = wire

    def decide(self, spec="expr/ExprTrace"):
        c = self.c
        with open(c.dir + "/exprs.ndjson", "w") as o:
            for e in self.exprs: o.write(json.dumps(e.tla(self.wire)) + "\n")
        with open(c.dir + "/ctxs.ndjson", "w") as o:
            for x in self.ctxs: o.write(json.dumps(xp.ctx_tla(x)) + "\n")
        os.environ["VF_EXPR"], os.environ["VF_CTX"] = c.dir + "/exprs.ndjson", c.dir + "/ctxs.ndjson"
        traces = [self.res[i:i + 60] for i in range(0, len(self.res), 60)]
        show = lambda e: self.show(e)
        c.validate_parallel(spec, "Trace.cfg", traces, what=self.what, show=show)
        c.samples = [{"trace": [show(e) for e in traces[len(traces) // 2][:6]]}]

    def show(self, e):
        d = dict(e)
        for k in ("x", "y"):
            if k in d: d[k] = self.exprs[d[k] - 1].text()
        for k in ("text", "raw", "ctext", "craw", "dtext", "draw"):
            if k in d: d[k] = bytes(d[k]).decode("latin1")
        d.pop("e", None)
        return d


def var(n): return X("Var", s=[n], b=[True])
def const(x): return X("Constant", v=x)


def evaluation(c):
    exe = build(c)
    rng = c.rng
    bed = Bed(c, exe, "evaluation")
    g = xp.Gen(rng)
    nctx = 14 if c.thorough else 6
    bed.ctxs = [g.context() for _ in range(nctx)]
    n = 6000 if c.thorough else 900
    for i in range(n):
        e = g.make(rng.choice([1, 2, 2, 3, 3, 4]), plain=rng.random() < .3)
        bed.add(e)
    for e in fixed(): bed.add(e)
    order = []
    for i in range(3, len(bed.exprs) + 1):
        enc = xp.encodable(bed.exprs[i - 1])
        for k in range(4):
            order.append({"op": "eval", "how": rng.choice("ooc" + ("d" if enc else "")), "x": i, "c": rng.randrange(nctx) + 1})
    bed.evs = order
    bed.run()
    bed.res = [r for r in bed.res if r["op"] == "eval"]
    bed.decide()
    c.assumptions.append("variables, properties and columns come from a context of the harness; what a function gives inside an expression is C37's")


def fixed():
    """what chance seldom makes"""
    out = []
    vals = [B(1), B(0), N(0), N(3), E, I(1)]
    for k in xp.LOGIC:
        for a in vals:
            for b in vals:
                out.append(X(k, const(a), const(b)))
                for d in vals[:5]: out.append(X(k, const(a), const(b), const(d)))
    ln = L(I(1), I(2), I(3), I(4))
    for k in xp.TEXT:
        for a in [S("abc"), S(""), S("ab"), N(0), N(3), I(1), E]:
            for b in [S("abc"), S(""), S("bc"), S("ab"), S("b"), N(0), N(4), E, B(1)]:
                out.append(X(k, const(a), const(b)))
    for lo in (None, -9, -4, -2, -1, 0, 1, 3, 4, 9, 2 ** 40, -2 ** 40):
        for hi in (None, -9, -4, -1, 0, 2, 4, 5, 2 ** 40, -2 ** 40):
            if lo is None and hi is None: continue
            out.append(X("SubscriptRange", const(ln), *[const(I(z)) for z in (lo, hi) if z is not None], b=[lo is not None, hi is not None]))
    for l in (ln, L(), N(0), N(3), E, I(1), S("x"), L(N(0), I(1)), L(E, I(1), B(1))):
        for i in (I(0), I(1), I(-1), I(-4), I(4), I(-5), I(2 ** 40), N(0), N(3), E, S("a"), F(1.0)):
            out.append(X("Subscript", const(l), const(i)))
            out.append(X("SubscriptRange", const(l), const(i), b=[True, False]))
            out.append(X("SubscriptRange", const(l), const(I(1)), const(i), b=[True, True]))
        for q in xp.QUANT:
            for f in (X("RelGT", var("q"), const(I(2))), const(B(1)), const(B(0)), const(N(0)), const(E), const(I(1)), X("RelEQ", var("q"), const(I(3)))):
                out.append(X("Predicate", const(l), f, s=[q, "q"], b=[True]))
        out.append(X("ListComprehension", const(l), X("RelGT", var("q"), const(I(1))), X("Add", var("q"), const(I(1))), s=["q"], b=[True, True]))
        out.append(X("ListComprehension", const(l), s=["q"], b=[False, False]))
        out.append(X("Reduce", const(I(0)), const(l), X("Add", var("a"), var("q")), s=["a", "q"]))
        for a in (I(1), I(9), N(0), N(3), S("x"), E, F(1.0)):
            out += [X("RelIn", const(a), const(l)), X("RelNotIn", const(a), const(l))]
    for g in (G(["c", "d"], [I(1), S("x")], [N(0), I(3)]), G(["c"], [I(5)]), G(["c"])):
        for i in (I(0), I(1), I(2), I(3), I(-1), I(-2), I(2 ** 40), I(-2 ** 40), N(0), S("c"), E): out.append(X("Subscript", const(g), const(i)))
    for a in (S("k"), S("z"), N(0), N(4), I(1), E):
        for b in (M(k=I(1)), U(S("k"), I(2)), U(N(0)), N(0), N(3), L(S("k"), N(0)), S("k"), E):
            out += [X("RelIn", const(a), const(b)), X("RelNotIn", const(a), const(b))]
    vx, ed = V(S("v1"), ("t1", {"a": I(1)}), ("t2", {"a": I(2), "b": N(0)})), W(S("v1"), S("v2"), 1, "like", 7, a=S("x"), _z=I(1))
    for a in (vx, ed, M(a=I(1), _vid=I(2)), N(0), E, I(1), ("D", 2020, 2, 29), ("T", 1, 2, 3, 4), ("X", 2021, 3, 4, 5, 6, 7, 8), L(I(1))):
        for k in ("a", "b", "_vid", "_src", "_dst", "_rank", "_type", "_z", "_", "year", "Month", "DAY", "hour", "MINUTE", "second", "microsecond", "x"):
            out += [X("Attribute", const(a), const(S(k))), X("Subscript", const(a), const(S(k)))]
            out.append(X("Predicate", X("Attribute", const(a), const(S(k))), s=["exists", ""], b=[False]))
    for t in (1, 2, 3, 4):
        for a in [B(1), B(0), I(0), I(5), I(-7), F(2.5), F(-2.75), S("12"), S("-3"), S("true"), S("FALSE"), S("x"), S(""), N(0), N(3), E, ("D", 2020, 1, 2), L(I(1), S("a")), M(a=I(1)), vx, ed]:
            out.append(X("TypeCasting", const(a), i=[t]))
    for k in ("UnaryIncr", "UnaryDecr"):
        out += [X(k, var("vi")), X(k, var("zz")), X(k, const(I(1))), X("Add", X(k, var("vi")), X(k, var("vi"))), X(k, X("VersionedVar", const(I(0)), s=["vi"])), X(k, X("VersionedVar", const(I(-1)), s=["vi"])),
                X(k, X("VersionedVar", s=["vi"])), X(k, var("vs")), X("List", X(k, var("vi")), var("vi"), X(k, var("vi")))]
    for i in (0, 1, 2, 3, -1, -2, -3, 2 ** 40, -2 ** 40): out.append(X("VersionedVar", const(I(i)), s=["vi"]))
    out += [X("VersionedVar", const(S("x")), s=["vi"]), X("VersionedVar", const(N(0)), s=["vi"])]
    for cond in (None, I(1), N(0), E, S("a")):
        for other in (None, S("other")):
            for w in (I(1), B(1), B(0), N(0), E, F(1.0), S("a")):
                out.append(X("Case", *([const(cond)] if cond else []), *([const(other)] if other else []), const(w), const(S("first")), const(I(1) if cond else B(1)), const(S("second")), b=[True, cond is not None, other is not None]))
    return out


def structure(c):
    exe = build(c)
    rng = c.rng
    bed = Bed(c, exe, "structure")
    g = xp.Gen(rng, calls=lambda g, d: X("FunctionCall", *[g.ex("any", d - 1) for _ in range(rng.randrange(3))], s=[rng.choice(["abs", "Size", "nope", "rand", "concat"])]))
    g.single = True
    n = 5000 if c.thorough else 900
    for i in range(n):
        e = g.make(rng.choice([1, 2, 2, 3]), plain=rng.random() < .3)
        a = bed.add(e)
        for _ in range(rng.choice([0, 1, 1, 2])):
            b = bed.add(g.variant(e))
            bed.evs += [{"op": "eq", "x": a, "y": b}, {"op": "eq", "x": b, "y": a}]
        bed.evs.append({"op": "eq", "x": a, "y": rng.randrange(1, a + 1)})
    fam = families()
    for f in fam:
        ids = [bed.add(e) for e in f]
        bed.evs += [{"op": "eq", "x": a, "y": b} for a in ids for b in ids]
    bed.evs += [{"op": "cast", "from": a, "to": b} for a in list(range(15)) + [63] for b in list(range(15)) + [63]]
    bed.run()
    bed.decide()


def families():
    """each differs from the next in one respect"""
    k = lambda x: const(x)
    a, b = k(I(1)), k(S("x"))
    ts = lambda kind, f=("t", "p", "v", ""), i=(-2, -1, -1): X(kind, s=f, i=i)
    props = [X(n, s=[r, s, p]) for n, r, p0 in (("TagProperty", "", None), ("EdgeProperty", "", None), ("SrcProperty", "$^", None), ("DstProperty", "$$", None)) for s, p in (("t", "p"), ("u", "p"), ("t", "q"), ("", "p"))]
    props += [X("VarProperty", s=["$", s, p]) for s, p in (("t", "p"), ("u", "p"), ("t", "q"))] + [X("InputProperty", s=["$-", "", p]) for p in ("p", "q")]
    props += [X(n, s=["", s, p]) for n, p in (("EdgeSrc", "_src"), ("EdgeType", "_type"), ("EdgeRank", "_rank"), ("EdgeDst", "_dst")) for s in ("like", "follow", "*")]
    return [
        props,
        [X("Aggregate", x, s=[n], b=[d]) for n in ("COUNT", "SUM", "count") for d in (False, True) for x in (a, b, X("Add", a, b), X("Var", s=["x"], b=[True]))],
        [X("FunctionCall", *x, s=[n]) for n in ("abs", "ABS", "size") for x in ((), (a,), (b,), (a, b), (b, a))],
        [X("UUID", s=[t]) for t in ("a", "b", "", b"a\0b", b"a\0c")],
        [X("Label", s=[t]) for t in ("a", "b", "", b"a\0b", b"a\0c")] + [X("LabelAttribute", X("Label", s=[t]), k(S(q))) for t in ("a", "b") for q in ("a", "b")],
        [X("Attribute", k(M(a=I(1))), r) for r in (k(S("a")), k(S("b")), X("Label", s=["a"]), X("Label", s=["b"]))] + [X("Subscript", k(M(a=I(1))), k(S("a")))],
        [X("Var", s=[t], b=[i]) for t in ("a", "b", "") for i in (True, False)] + [X("VersionedVar", *x, s=[t]) for t in ("a", "b", "") for x in ((), (a,), (k(I(0)),), (b,))],
        [X("Column", i=[i]) for i in (0, 1, 2, -1, 255, 256)],
        [X("TypeCasting", x, i=[t]) for t in (1, 2, 3, 4) for x in (a, b)],
        [X("Predicate", c1, f, s=[q, n], b=[True], o=o) for q in ("all", "any") for n in ("q", "r") for c1 in (k(L(I(1))), k(L())) for f in (a, b) for o in (b"", b"text")]
        + [X("Predicate", X("Attribute", k(M(a=I(1))), k(S(t))), s=["exists", ""], b=[False], o=o) for t in ("a", "b") for o in (b"", b"t")],
        [X("ListComprehension", k(L(I(1))), *([k(B(1))] if f else []), *([m] if mm else []), s=[n], b=[f, mm], o=o) for n in ("q", "r") for f in (False, True) for mm in (False, True) for m in ((a, b) if mm else (a,)) for o in (b"", b"text")],
        [X("Reduce", i, k(L(I(1))), m, s=[x, y], o=o) for x in ("a", "b") for y in ("q", "r") for i in (a, b) for m in (a, b) for o in (b"", b"text")],
        [X("SubscriptRange", k(L(I(1))), *([lo] if lo else []), *([hi] if hi else []), b=[bool(lo), bool(hi)]) for lo in (None, a, k(I(2))) for hi in (None, a, k(I(2))) if lo or hi],
        [X("Case", *([a] if h else []), *([b] if o else []), w, a, b=[g, h, o]) for g, h, o in ((True, False, False), (True, True, False), (True, False, True), (True, True, True), (False, False, True)) for w in (k(B(1)), k(B(0)))]
        + [X("Case", k(B(1)), a, k(B(0)), b, b=[True, False, False]), X("Case", k(B(1)), a, k(B(0)), a, b=[True, False, False])],
        [X("Map", *x, s=s) for s, x in ((["a"], (a,)), (["a"], (b,)), (["b"], (a,)), (["a", "b"], (a, b)), (["b", "a"], (b, a)), (["a", "a"], (a, b)))],
        [X(t, *x) for t in ("List", "Set", "PathBuild") for x in ((a,), (b,), (a, b), (b, a), (a, a))],
        [X(t, *x) for t in xp.LOGIC for x in ((a, b), (b, a), (a, b, a), (a, a))],
        [X(t, x) for t in ("UnaryPlus", "UnaryNegate", "UnaryNot", "UnaryIncr", "UnaryDecr", "IsNull", "IsNotNull", "IsEmpty", "IsNotEmpty") for x in (a, b)],
        [X(t, *x) for t in xp.ARITH + xp.REL + xp.TEXT + ["RelIn", "RelNotIn", "RelREG", "Subscript"] for x in ((a, b), (b, a))],
        [k(x) for x in (I(1), F(1.0), I(2), S("1"), N(0), N(3), E, B(1), L(I(1)), L(), M(), U(), M(a=I(1)), ("D", 2020, 1, 1), F(1.5))],
        [ts(t) for t in ("TSPrefix", "TSWildcard", "TSRegexp", "TSFuzzy")] + [ts("TSFuzzy", f, i) for f, i in (
            (("u", "p", "v", ""), (-2, -1, -1)), (("t", "q", "v", ""), (-2, -1, -1)), (("t", "p", "w", ""), (-2, -1, -1)), (("t", "p", "v", "or"), (-2, -1, -1)), (("t", "p", "v", "or"), (-1, -1, -1)),
            (("t", "p", "v", "and"), (-1, -1, -1)), (("t", "p", "v", "or"), (2, -1, -1)), (("t", "p", "v", "and"), (2, -1, -1)), (("t", "p", "v", ""), (-2, 10, -1)), (("t", "p", "v", ""), (-2, -1, 20)), (("t", "p", "v", ""), (-2, 10, 20)))],
        [X("Vertex"), X("Edge")],
    ]


