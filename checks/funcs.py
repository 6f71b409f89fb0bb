"""Functions of the query language (C37) and aggregates (C20)."""
import json, os
import vf
import vals as v
import exprs as xp
from vals import E, N, B, I, F, S, L, M, U, V, W, P, G
from expr import build
from value import Universe

MAX, MIN = 2 ** 63 - 1, -2 ** 63


def run_calls(c, exe, uni, evs, what, spec="expr/FunTrace", known=None):
    """evs: calls with their arguments as values; what is recorded has indices."""
    def line(e):
        if e["op"] in ("call", "announced"): return " ".join(["call", v.hx(e["f"]), str(len(e["a"]))] + [v.text(x) for x in e["a"]])
        if e["op"] == "agg": return " ".join(["agg", v.hx(e["f"]), str(int(e["distinct"])), str(len(e["a"]))] + [v.text(x) for x in e["a"]])
        return e["line"]
    setting = lambda e: e["op"] == "set"
    script = ["reset"] + [line(e) for e in evs]
    out, crash = c.drive(exe, script, 300)
    bad = next((k for k, o in enumerate(out) if not o.startswith("{")), None)
    if bad is not None: crash, out = out[bad], out[:bad]
    if crash or len(out) < len(script):
        k = min(len(out), len(script) - 1)
        sub = ["reset"] + [line(e) for e in evs[:k - 1] if setting(e)] + [script[k]]
        out2, crash2 = c.drive(exe, sub, 20)
        bad2 = next((o for o in out2 if not o.startswith("{")), None)
        if not (crash2 or bad2): raise vf.CheckError("%s: a crash did not repeat: %s" % (what, crash))
        raise vf.Violation("%s: %s: %s" % (what, sub[-1][:600], crash2 or bad2), {"kind": "replay", "driver": "expr", "script": sub, "why": crash2 or bad2})
    res = []
    for e, o in zip(evs, out[1:]):
        if setting(e): continue
        r = dict(json.loads(o), op=e["op"], f=list(e["f"]), a=[uni.add(x) for x in e["a"]])
        if "distinct" in e: r["distinct"] = bool(e["distinct"])
        r["r"] = uni.add(v.parse(r["r"]))
        res.append(r)
    f = c.dir + "/universe.ndjson"
    uni.write(f)
    os.environ["VF_UNI"] = f
    traces = [res[i:i + 40] for i in range(0, len(res), 40)]

    def show(e):
        d = dict(e, f=bytes(e["f"]).decode("latin1"), a=[v.text(uni.vals[i - 1]) for i in e["a"]], r=v.text(uni.vals[e["r"] - 1]))
        return d
    c.validate_parallel(spec, "Trace.cfg", traces, what=what, show=show, known=known)
    c.samples = [{"trace": [show(e) for e in traces[len(traces) // 2][:8]]}]


INTS = [0, 1, -1, 2, -2, 3, 5, 7, 10, -10, 13, 64, 100, -255, 1000, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 53, MAX, MIN, MAX - 1, 10 ** 15]
FLOATS = [2.0 ** 63, -2.0 ** 63, 2.0 ** 63 - 1024, 0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, 2.5, -2.5, 2.75, 3.14159, -7.25, 10.0, 24.0, 1e-9, 2.0 ** -30, 100.125, 1e15, -1e15, 1e21, 1e100, 1.0 / 3, 0.49999999999999994, 123456.789, 2.0 ** 52 + 0.5]
TEXTS = [b"", b"a", b"Ab", b"abc", b"ABC", b"  x y\t", b"\n \r z", b"hello", b"Hello World", b"aaaa", b"abab", b"a,b,,c", b",", b"a\0b", b"a\0c", b"12", b"-7", b"3.5", b"1e3", b"true", b"FALSE", b"+5", b"99999999999999999999", b"\xc3\xa9t\xe9", b" 12 ", b"[\\]", b"ab,ab"]
LENS = [0, 1, 2, 3, 5, 8, 20, -1, -3, MAX, MIN, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 31 + 2, 2 ** 33 - 1]
DATES = [b"2019-03-04", b"2000-02-29", b"1900-02-29", b"2021-02-30", b"2020-13-01", b"2020-00-10", b"2020-01-00", b"2020-01-32", b"1970-01-01", b"0001-01-01", b"9999-12-31", b"2021-04-31", b"2021-12-31"]
TIMES = [b"00:00:00", b"23:59:59", b"12:34:56", b"24:00:00", b"12:60:00", b"01:02:03", b"08:00:00", b"12:00:65", b"18:45:01", b"99:00:00"]
ODD = [b"2019", b"2019-", b"2019-03", b"12", b"12:30", b"2019-03-04T", b"2019-03-04T01:02", b"2019-03-04 12", b"", b"x", b"  ", b"abc", b"T", b"-", b"::"]
FIELDS = {"year": [2019, 2000, 1900, 0, -5, 1970, 32767, 32768, -32768, -32769, 2024, 10 ** 12], "month": [1, 2, 2, 12, 0, 13, -1, 4, 257, 2 ** 32 + 1], "day": [1, 28, 29, 30, 31, 0, 32, 257], "hour": [0, 1, 8, 23, 24, -1, 256],
          "minute": [0, 59, 60, 30, 256], "second": [0, 59, 60, 1, -1], "microsecond": [0, 999999, 1000000, 5, -1, 2 ** 32]}


def odd(g):
    r = g.rng.random()
    if r < .25: return g.pick([N(0), N(0), N(3), N(6), E])
    if r < .4: return I(g.pick(INTS))
    if r < .55: return S(g.pick(TEXTS))
    if r < .65: return F(g.pick(FLOATS))
    if r < .7: return B(g.p(.5))
    return g.value(g.pick(["list", "map", "set", "vertex", "edge", "path", "date", "time", "datetime", "dataset"]))


def num(g): return I(g.pick(INTS)) if g.p(.5) else F(g.pick(FLOATS) if g.p(.6) else g.rng.randrange(-4000, 4000) / 2.0 ** g.rng.randrange(0, 12))
def mid(g): return I(g.rng.randrange(-12, 13)) if g.p(.4) else F(g.rng.randrange(-12 * 256, 12 * 256) / 256.0)
def unit(g): return I(g.pick([-1, 0, 1])) if g.p(.2) else F(g.rng.randrange(-1024, 1025) / 1024.0) if g.p(.8) else num(g)
def int_(g): return I(g.pick(INTS) if g.p(.6) else g.rng.randrange(-1000, 1000))
def txt(g): return S(g.pick(TEXTS) if g.p(.7) else bytes(g.pick(b"abAB ,x1\0") for _ in range(g.rng.randrange(9))))
def bit(g): return S(g.pick([b"", b"a", b"ab", b",", b"b", b"l", b"aa", b"xyz", b" ", b"\0"]))
def len_(g): return I(g.pick(LENS))
def small(g): return I(g.rng.randrange(-3, 7))
def pad(g): return I(g.rng.randrange(-3, 24))
def of(*kinds): return lambda g: g.value(g.pick(kinds))
def date_text(g): return S(g.pick(DATES if g.p(.8) else ODD))
def time_text(g): return S(g.pick(TIMES if g.p(.8) else ODD))
def dt_text(g): return S(g.pick(DATES) + g.pick([b"T", b" "]) + g.pick(TIMES) if g.p(.85) else g.pick(ODD))
def fields(names, p):
    def f(g):
        m = {n: I(g.pick(FIELDS[n]) if g.p(.15) else g.pick(FIELDS[n][:3])) for n in names if g.p(p)}
        if g.p(.1): m[g.pick(["foo", "hour", "year", "Day", "micro"])] = I(1)
        if g.p(.07) and m: m[g.pick(sorted(m))] = g.pick([S("1"), F(1.0), N(0), E, B(1)])
        return M(**m)
    return f
D, T = ["year", "month", "day"], ["hour", "minute", "second", "microsecond"]
def or_(*fs): return lambda g: g.pick(fs)(g)
def looped(g):
    """a path that may meet an edge or a vertex again"""
    vs = [S("v1"), S("v2"), S("v3")]
    return P(V(g.pick(vs)), *[(V(g.pick(vs)), g.pick([1, 1, -1]), b"e", 0, {}) for _ in range(g.rng.randrange(5))])
def bag(g): return L(*[g.pick([N(0), N(0), N(3), E, I(1), S("a")]) for _ in range(g.rng.randrange(4))])
def edge_i(g): return W(g.pick([S("v1"), I(7)]), g.pick([S("v2"), I(-8)]), g.pick([1, 5, -1, -5]), g.pick(["like", ""]), g.pick([0, 1, -3, 10 ** 6]), **g.few({k: g.scalar() for k in xp.KEYS if g.p(.5)}))
def vertex2(g): return V(g.pick([S("v1"), I(4)]), *[(n, {k: g.scalar(False) for k in xp.KEYS if g.p(.5)}) for n in ("t1", "t2", "t1") if g.p(.6)])
def map_(g): return M(**{k: g.scalar(False) for k in ["z", "a", "b", "nm", "", "ab"] if g.p(.5)})
def data(g):
    w = g.rng.randrange(1, 4)
    return G(["a", "b", "c"][:w], *[[g.scalar(False) for _ in range(w)] for _ in range(g.rng.randrange(4))])
def col(g): return I(g.rng.randrange(-1, 4)) if g.p(.5) else S(g.pick(["a", "b", "c", "d", ""]))
def row(g): return I(g.rng.randrange(-1, 5)) if g.p(.95) else I(g.pick([MAX, MIN, 2 ** 32]))
def hashed(g): return g.pick([int_, num, txt, of("date", "datetime", "vertex", "edge"), lambda g: L(I(1), S("a"), F(0.5)), lambda g: E, lambda g: N(0), lambda g: B(1), of("time", "map", "set"), lambda g: P(V(S("v1")), (V(S("v2")), 1, b"e", 0, {}))])(g)

TABLE = [("abs", [num]), ("bit_and", [int_, int_]), ("bit_or", [int_, int_]), ("bit_xor", [int_, int_]), ("floor", [num]), ("ceil", [num]), ("round", [num]), ("sqrt", [num]), ("cbrt", [num]),
         ("hypot", [mid, mid]), ("pow", [mid, mid]), ("pow", [small, pad]), ("pow", [int_, int_]), ("pow", [num, or_(small, lambda g: F(g.rng.randrange(-12, 13) / 4.0))]), ("e", []), ("exp", [mid]), ("exp2", [mid]), ("log", [num]), ("log2", [num]), ("log10", [num]), ("pi", []),
         ("radians", [num]), ("sin", [mid]), ("cos", [mid]), ("asin", [unit]), ("acos", [unit]), ("tan", [mid]), ("atan", [num]), ("sign", [num]), ("rand", []), ("rand32", []), ("rand32", [int_]), ("rand32", [int_, int_]),
         ("rand64", []), ("rand64", [int_]), ("rand64", [int_, int_]), ("now", []), ("strcasecmp", [txt, txt]), ("strcasecmp", [lambda g: S(g.pick([b"ab", b"AB", b"aB\0", b"Ab\0x", b"abc"])), lambda g: S(g.pick([b"ab", b"aB", b"AB\0", b"ab\0y"]))]), ("lower", [txt]), ("toLower", [txt]), ("upper", [txt]), ("toUpper", [txt]),
         ("length", [or_(txt, of("path"))]), ("trim", [txt]), ("ltrim", [txt]), ("rTrim", [txt]), ("left", [txt, or_(small, len_)]), ("right", [txt, or_(small, len_)]), ("replace", [txt, bit, bit]), ("reverse", [or_(txt, of("list"))]),
         ("split", [txt, bit]), ("lpad", [txt, pad, bit]), ("rpad", [txt, pad, bit]), ("substr", [txt, or_(small, len_)]), ("substr", [txt, or_(small, len_), or_(small, len_)]), ("substring", [txt, small, or_(small, len_)]), ("substring", [txt, small]),
         ("toString", [or_(num, txt, of("bool", "date", "time", "datetime"))]), ("toBoolean", [or_(txt, of("bool", "int"))]), ("toFloat", [or_(num, txt)]), ("toInteger", [or_(num, txt)]), ("hash", [hashed]),
         ("size", [or_(txt, of("list", "map", "set", "dataset"))]), ("time", []), ("time", [or_(time_text, fields(T, .6))]), ("date", []), ("date", [or_(date_text, fields(D, .8))]), ("datetime", []), ("datetime", [or_(dt_text, fields(D + T, .6))]),
         ("timestamp", []), ("timestamp", [or_(dt_text, int_, lambda g: I(g.pick([9223372036, 9223372037, -1, 0])))]), ("tags", [vertex2]), ("labels", [vertex2]), ("properties", [or_(vertex2, edge_i, map_)]), ("type", [edge_i]), ("typeid", [edge_i]), ("rank", [edge_i]),
         ("startNode", [or_(edge_i, of("path"))]), ("endNode", [or_(edge_i, of("path"))]), ("keys", [or_(vertex2, edge_i, map_)]), ("nodes", [or_(of("path"), looped)]), ("tail", [of("list")]), ("relationships", [or_(of("path"), looped)]), ("head", [of("list")]), ("last", [of("list")]),
         ("coalesce", [bag]), ("range", [small, small]), ("range", [pad, pad, small]), ("range", [lambda g: I(g.pick([MAX - 2, MAX - 1, MAX])), lambda g: I(g.pick([MAX, MAX - 1])), lambda g: I(g.pick([1, 2, 5, MAX]))]),
         ("range", [lambda g: I(g.pick([MIN + 2, MIN + 1, MIN])), lambda g: I(g.pick([MIN, MIN + 1])), lambda g: I(g.pick([-1, -2, -5, MIN]))]), ("range", [lambda g: I(g.pick([MAX - 1, MAX])), lambda g: I(MAX)]), ("hasSameEdgeInPath", [looped]), ("hasSameVertexInPath", [looped]), ("reversePath", [or_(of("path"), looped)]),
         ("dataSetRowCol", [data, row, col]), ("udf_is_in", [small, small, small, small]), ("udf_is_in", [of("any"), of("any"), of("any")]), ("near", [txt, num]), ("cos_similarity", [mid, mid, mid, mid]), ("cos_similarity", [mid, mid]), ("cos_similarity", [small] * 6), ("cos_similarity", [mid] * 3),
         ("id", [vertex2]), ("src", [edge_i]), ("dst", [edge_i])]
NAMES = sorted({n for n, _ in TABLE} | {"tostring", "hassameedgeinpath"})


def cased(g, n):
    r = g.rng.random()
    return (n if r < .6 else n.upper() if r < .8 else n.lower() if r < .9 else "".join(g.pick([x.upper(), x.lower()]) for x in n)).encode()


def zone(secs):
    a = abs(secs)
    return "UTC%s%02d:%02d:%02d" % ("-" if secs < 0 else "+", a // 3600, a // 60 % 60, a % 60)


def functions(c):
    exe = build(c)
    g = xp.Gen(c.rng)
    evs = []
    reps = 200 if c.thorough else 45
    for rnd in range(6 if c.thorough else 3):
        evs.append({"op": "set", "line": "tz " + zone([0, 8 * 3600, -5 * 3600, 5 * 3600 + 1800, -11 * 3600 - 2700, 13 * 3600][rnd])})
        evs.append({"op": "set", "line": "rand " + ["high", "low", "free"][rnd % 3]})
        for n, kinds in TABLE:
            k = reps // 3 if kinds else 2
            if len(kinds) > 1: k = k * 3 // 2
            for _ in range(k):
                a = [f(g) for f in kinds]
                if a and g.p(.12): a[g.rng.randrange(len(a))] = g.pick([N(0), N(0), E, N(3), N(6)])
                elif a and g.p(.12) and n != "hash": a[g.rng.randrange(len(a))] = odd(g)
                evs.append({"op": "call", "f": cased(g, n), "a": a})
        # as many arguments as it should not have
        for n in NAMES:
            for k in range(5):
                if g.p(.4): evs.append({"op": "call", "f": n.encode(), "a": [I(1)] * k})
        for n in [b"", b"nosuch", b"ab", b"abss", b"rand 32", b"to_string"]:
            evs.append({"op": "call", "f": n, "a": [I(1)] * g.rng.randrange(3)})
    # what an amount too many would make run out of memory is not asked for
    def fine(e):
        if e["op"] not in ("call",): return True
        n, a = e["f"].lower(), e["a"]
        if n in (b"lpad", b"rpad") and len(a) == 3 and a[1][0] == "I" and a[1][1] > 1000: return False
        if n == b"range" and len(a) > 1 and a[0][0] == a[1][0] == "I":
            st = a[2][1] if len(a) == 3 and a[2][0] == "I" else 1
            if st and (a[1][1] - a[0][1]) // st > 60: return False
        return True
    evs = [e for e in evs if fine(e)]
    evs.append({"op": "announced", "f": b"strcasecmp", "a": [S("a"), S("b")]})
    run_calls(c, exe, Universe(), evs, "functions", known=lambda e: "strcasecmp-type" if e["op"] == "announced" else None)


def aggregates(c):
    exe = build(c)
    g = xp.Gen(c.rng)
    evs = []
    names = ["COUNT", "SUM", "AVG", "MAX", "MIN", "STD", "BIT_AND", "BIT_OR", "BIT_XOR", "COLLECT", "COLLECT_SET", ""]
    def stream(n):
        r = g.rng.random()
        if n.startswith("BIT"): f = [int_, small][g.rng.randrange(2)]
        elif n in ("SUM", "AVG", "STD"): f = g.pick([small, small, mid, mid, int_])
        elif n in ("MAX", "MIN"): f = g.pick([small, lambda g: F(g.rng.randrange(-9, 9) + .5), txt, of("bool"), of("date"), lambda g: g.pick([small, lambda g: F(g.rng.randrange(-9, 9) + .5)])(g)])
        else: f = g.pick([small, txt, lambda g: g.scalar(False)])
        q = g.pick([0, .2, .5])
        z = g.pick([0, 0, .08])
        def one():
            if g.p(q): return g.pick([N(0), N(0), E, N(3), N(6)])
            if g.p(z) and n not in ("MAX", "MIN"): return g.pick([S("a"), B(1), F(1.5), I(3), L(I(1))])
            return f(g)
        return [one() for _ in range(g.pick([0, 1, 2, 3, 5, 8, 12]))]
    for _ in range(600 if c.thorough else 150):
        for n in names:
            evs.append({"op": "agg", "f": cased(g, n), "distinct": g.p(.35), "a": stream(n)})
    for n in [b"nosuch", b"COUN", b"COUNTS", b"COLLECT SET", b"\0"]:
        evs.append({"op": "agg", "f": n, "distinct": False, "a": [I(1)]})
    run_calls(c, exe, Universe(), evs, "aggregates")
