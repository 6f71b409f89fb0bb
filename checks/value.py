"""Value: operators (C17), comparison and hash (C18)."""
import itertools, json, math, os
from fractions import Fraction
import vf
import vals as v
from vals import E, N, B, I, F, S, L, M, U, V, W, P, G

DT = ["common/datatypes/%s.cpp" % f for f in ("Value", "Date", "Edge", "List", "Map", "Path", "Set", "Vertex", "HostAddr")]
MAX, MIN = 2 ** 63 - 1, -2 ** 63


def build(c, name="value", flags=()):
    return c.build(name, [vf.VERIF + "/harness/%s_driver.cpp" % name] + DT, shim=True, flags=flags)


class Universe:
    """Values, by index from 1 (as TLC counts)."""
    def __init__(self):
        self.ix, self.vals = {}, []

    def add(self, val):
        t = json.dumps(v.tla(val), sort_keys=True)
        if t not in self.ix:
            self.vals.append(val)
            self.ix[t] = len(self.vals)
        return self.ix[t]

    def write(self, path):
        with open(path, "w") as o:
            for x in self.vals:
                o.write(json.dumps(v.tla(x)) + "\n")


def run_ops(c, exe, uni, evs, what, chunk=4000):
    """evs: events with operand indices; returns them with the results as indices."""
    n = len(uni.vals)
    line = lambda e, ix=None: " ".join([e["op"]] + [str(x) for x in e.get("args", [])] + [str(e[k] - 1) for k in ("a", "b") if k in e])
    script = ["reset"] + ["def " + v.text(x) for x in uni.vals] + [line(e) for e in evs]
    out, crash = c.drive(exe, script, 300)
    if crash or len(out) < len(script):
        k = min(len(out), len(script) - 1)
        e = evs[k - 1 - n] if k > n else {}
        sub = ["reset"] + ["def " + v.text(uni.vals[e[x] - 1]) for x in ("a", "b") if x in e] + [" ".join([e.get("op", "")] + [str(i) for i, x in enumerate(x for x in ("a", "b") if x in e)])]
        out2, crash2 = c.drive(exe, sub)
        if not crash2:
            sub = script[:k + 1]
            out2, crash2 = c.drive(exe, sub, 300)
            if not crash2:
                raise vf.CheckError("%s: a crash did not repeat: %s" % (what, crash))
        raise vf.Violation("%s: %s: %s" % (what, " ; ".join(sub[-3:]), crash2), {"kind": "replay", "driver": os.path.basename(exe), "script": sub, "why": crash2})
    for x, o in zip(uni.vals, out[1:n + 1]):
        back = json.loads(o).get("back")
        if back is not None and json.dumps(v.tla(v.parse(back)), sort_keys=True) != json.dumps(v.tla(x), sort_keys=True):
            raise vf.Violation("%s: a value made as %s reads back as %s" % (what, v.text(x), back), {"kind": "replay", "driver": os.path.basename(exe), "script": ["def " + v.text(x)], "observed": back})
    res = []
    for e, o in zip(evs, out[n + 1:]):
        r = {k: x for k, x in e.items() if k != "args"}
        for k, x in json.loads(o).items():
            r[k] = uni.add(v.parse(x)) if isinstance(x, str) else x
        if r["op"] == "%":
            a, b = uni.vals[r["a"] - 1], uni.vals[r["b"] - 1]
            q = 0
            if a[0] in "IF" and b[0] in "IF" and b[1] != 0:
                x = Fraction(a[1]) / Fraction(b[1])
                q = int(x)
            r["q"] = v.big(q)
        res.append(r)
    return res


def decide(c, uni, evs, what, known=None, spec="value/ValueTrace"):
    """One trace per event group; a group is small, so that TLC can run groups apart."""
    f = c.dir + "/universe.ndjson"
    uni.write(f)
    os.environ["VF_UNI"] = f
    traces = [evs[i:i + 40] for i in range(0, len(evs), 40)]

    def show(e):
        d = dict(e)
        for k in ("a", "b", "r", "d", "less", "equal"):
            if k in d:
                d[k] = v.text(uni.vals[d[k] - 1])
        return d
    c.validate_parallel(spec, "Trace.cfg", traces, what=what, show=show, known=known)
    c.samples = [{"trace": [show(e) for e in traces[len(traces) // 2][:10]]}]


def numbers(rng):
    ints = [0, 1, -1, 2, -2, 3, 7, 10, -13, 2 ** 31, -2 ** 31 - 1, 2 ** 32 + 1, 2 ** 53, 3037000500, -3037000499, 10 ** 18, MAX, MAX - 1, MIN, MIN + 1, MAX // 2, MIN // 2, MAX // 3]
    fl = [0.0, 1.0, -1.0, 0.5, -2.75, 3.14, 2.0 ** -26, 2.0 ** -27, -2.0 ** -30, 1e-9, 1e10, -1e18, 1e100, 9.3e18, -9.3e18, 2.0 ** 63, -2.0 ** 63, 30.142857142857142, 1.0 + 2 ** -52, 123456789.125]
    return [I(n) for n in ints] + [F(x) for x in fl]


def others():
    v1, v2 = V(S("a"), ("t", {"p": I(1)})), V(S("b"))
    e1 = W(S("a"), S("b"), 3, "like", 2, p=I(1))
    return [E] + [N(k) for k in range(8)] + [B(0), B(1), S(""), S("abc"), S(b"a\0b"), S("12"), S(b"\xff\x80%s"), S("TrUe"), S("x" * 100),
            ("D", 2020, 1, 1), ("D", 1999, 12, 31), ("D", 2001, 2, 28), ("T", 1, 2, 3, 4), ("T", 23, 59, 59, 999999), ("X", 2020, 2, 29, 12, 0, 5, 7),
            v1, v2, e1, P(v1, (v2, 1, "e", 0, {})), L(), L(I(1), S("x")), L(L(I(2)), N(0)), M(), M(a=I(1), b=F(0.5)), U(), U(I(1), I(2)),
            G(["c"], [I(1)]), G([])]


STRINGS = ["", " ", "0", "-0", "+5", "12", "-12", "007", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
           "99999999999999999999999", "3.14", "-3.99", "123.", ".5", "-.5", ".", "-", "+", "1.5e3", "1.25e-2", "-2.5E+2", "1.e", "1e", "12abc", "1.2abc", "abc", "1 2", "12 ",
           "1.0e18", "9.3e18", "-9.3e18", "1.5e30", "-1.5e300", "9223372036854775807.0", "0.000000001", "true", "TRUE", "False", "tru", "truee", "1.2.3", "--1", "5-", "2.5e1.5",
           b"12\0", b"12\0abc", b"3.5\0", b"\0", b"true\0", "tRuE ", "123456789012345678901234567890.5", "0.1", "1e5", "2E2", "12E"]


def op_events(c, uni):
    rng = c.rng
    nums, oth = numbers(rng), others()
    for _ in range(120 if c.thorough else 25):
        nums.append(I(rng.choice([rng.getrandbits(rng.randrange(1, 64)), -rng.getrandbits(rng.randrange(1, 64)), rng.randrange(-50, 50), MAX - rng.randrange(100), MIN + rng.randrange(100)])))
        nums.append(F(rng.choice([rng.randrange(-4000, 4000) / 8.0, rng.uniform(-10, 10), rng.uniform(-1e12, 1e12), rng.randrange(1, 100) * 1e-8 / 50])))
    rep = [I(3), I(-4), F(2.5), S("s")] + oth
    evs = []
    ix = lambda x: uni.add(x)
    for op in ("+", "-", "*", "/", "%", "&", "|", "^", "&&", "||"):
        for a, b in itertools.product(rep, rep):
            if op in "+" or (a[0] != b[0]) or rng.random() < 0.5 or a[0] in "ENB":
                if op != "+" and rng.random() < (0 if c.thorough else 0.45) and a[0] not in "EN" and b[0] not in "EN":
                    continue
                evs.append({"op": op, "a": ix(a), "b": ix(b)})
        if op in ("&&", "||"):
            continue
        pairs = list(itertools.product(nums, nums))
        for a, b in (pairs if c.thorough else rng.sample(pairs, 700)):
            if op in "&|^" and not (a[0] == b[0] == "I"):
                continue
            if op in "*/%" and "F" in a[0] + b[0] and (abs(a[1]) > 1e40 or abs(b[1]) > 1e40):
                continue        # quotients and products of extreme size
            if op == "%" and a[0] != b[0] and any(x[0] == "I" and abs(x[1]) > 2 ** 53 for x in (a, b)):
                continue        # no double has that value
            evs.append({"op": op, "a": ix(a), "b": ix(b)})
        if op in "+-*/%":   # the edges of the integers, exhaustively
            edge = [I(n) for n in (MIN, MIN + 1, -2, -1, 0, 1, 2, MAX - 1, MAX)]
            evs += [{"op": op, "a": ix(a), "b": ix(b)} for a, b in itertools.product(edge, edge)]
    for a, n in itertools.product([("D", 2020, 1, 1), ("D", 2000, 2, 28), ("D", 1999, 12, 31)], (0, 1, -1, 28, 60, 365, 366, -400, 1000, -3000, 30000000, -30000000, 2 ** 40, -2 ** 40, MAX, MIN, MIN + 1)):
        evs += [{"op": "+", "a": ix(a), "b": ix(I(n))}, {"op": "+", "a": ix(I(n)), "b": ix(a)}, {"op": "-", "a": ix(a), "b": ix(I(n))}]
        evs += [{"op": "-", "a": ix(a), "b": ix(("D", 2004, 2, 29))}]
    strs = [S(s) for s in STRINGS]
    for _ in range(400 if c.thorough else 60):
        t = str(rng.choice([rng.getrandbits(rng.randrange(1, 68)), rng.randrange(1000)]))
        if rng.random() < 0.6:
            k = rng.randrange(len(t) + 1)
            t = t[:k] + "." + t[k:] + rng.choice(["", "", "e%d" % rng.randrange(-8, 9), "x"])
        strs.append(S(rng.choice(["", "-", "+", ""]) + t))
    for a in nums + oth + strs:
        evs += [{"op": o, "a": ix(a)} for o in ("neg", "not", "toBool", "toFloat")]
        evs.append({"op": "toIntP" if a[0] == "S" else "toInt", "a": ix(a)})
    return evs


def ops(c):
    exe = build(c)
    uni = Universe()
    evs = op_events(c, uni)
    rng = c.rng
    evs = run_ops(c, exe, uni, evs, "Value operators")
    # floats that overflowed or vanished are outside the specification
    sp = lambda i: uni.vals[i - 1][0] == "F" and not math.isfinite(uni.vals[i - 1][1])
    evs = [e for e in evs if not any(sp(e[k]) for k in ("a", "b", "r", "d") if k in e)]
    rng.shuffle(evs)
    decide(c, uni, evs, "Value operators")
    c.assumptions += ["floats are finite; results beyond the range of a double are not compared", "conversion texts are decimal numbers without leading blanks, or no numbers at all",
                      "dates of the years 1901 to 2099 (Date's own calendar otherwise, see C16)"]


def order_universe(c):
    rng = c.rng
    k, dd = rng.choice([1, 2, 5]), rng.randrange(1, 28)
    a1, a2 = V(S("a"), ("t", {"p": I(1)})), V(S("a"), ("t", {"p": I(2)}))
    a3, b1 = V(S("a"), ("t", {"p": I(1)}), ("u", {})), V(S("b"))
    base = [E, N(0), N(3), N(6), B(0), B(1), S(""), S("a"), S("ab"), S("b"), S(b"a\0"), S(b"\xff"), S("a" * 40)]
    base += [("D", y, m, d) for y, m, d in ((2020, 1, dd), (2020, 2, dd), (2019, 12, dd), (-5, 1, 1), (2020, 1, dd + 1))]
    base += [("T", 1, 2, 3, 4), ("T", 1, 2, 3, 5), ("T", 1, 2, 4, 0), ("T", 1, 3, 0, 0), ("T", 2, 0, 0, 0)]
    base += [("X", 2020, 1, dd, 1, 2, 3, 4), ("X", 2020, 1, dd, 1, 2, 3, 5), ("X", 2020, 1, dd, 1, 2, 4, 0), ("X", 2020, 1, dd, 1, 3, 0, 0), ("X", 2020, 1, dd, 2, 0, 0, 0),
             ("X", 2020, 1, dd + 1, 0, 0, 0, 0), ("X", 2020, 2, 1, 0, 0, 0, 0), ("X", 2021, 1, 1, 0, 0, 0, 0), ("X", -3, 5, 1, 0, 0, 0, 0)]
    vs = [a1, a2, a3, b1, V(I(k)), V(I(k + 1), ("t", {})), V(S("a")), V(S("a"), ("t2", {"p": I(1)}))]
    es = [W(s, d, t, n, r, **p) for s, d, t, n, r, p in (
        (S("a"), S("b"), 3, "e", 0, {}), (S("b"), S("a"), -3, "e", 0, {}), (S("a"), S("b"), -3, "e", 0, {}), (S("a"), S("b"), 3, "f", 0, {}),
        (S("a"), S("b"), 3, "e", 1, {}), (S("a"), S("b"), 4, "e", 0, {}), (S("a"), S("c"), 3, "e", 0, {}), (S("a"), S("b"), 3, "e", 0, {"p": I(1)}),
        (S("a"), S("b"), 3, "e", 0, {"p": I(2)}), (S("b"), S("b"), 3, "e", 0, {}), (I(1), I(2), 3, "e", -1, {}), (S("b"), S("a"), -3, "e", 1, {}),
        (S("a"), S("a"), 3, "e", 0, {}), (S("a"), S("a"), -3, "e", 0, {}))]
    st = [(b1, 1, "e", 0, {}), (b1, 1, "e", 1, {}), (b1, 2, "e", 0, {}), (a1, 1, "e", 0, {}), (b1, 1, "f", 0, {}), (b1, 1, "e", 0, {"p": I(1)}), (b1, -1, "e", 0, {})]
    ps = [P(a1), P(b1), P(a3)] + [P(a1, s) for s in st] + [P(a1, st[0], st[3]), P(a1, st[3], st[0]), P(b1, st[0])]
    ls = [L(), L(I(1)), L(I(1), I(2)), L(I(2)), L(I(1), S("a")), L(L(I(1)), I(0)), L(L(), I(5)), L(N(0)), L(E, I(1)), L(a1), L(S("a"), S("b")), L(es[0]), L(es[1])]
    ms = [M(), M(a=I(1)), M(a=I(2)), M(b=I(1)), M(a=I(1), b=S("x")), M(a=M(c=L(I(1))))]
    us = [U(), U(I(1)), U(I(1), I(2)), U(I(2), I(1), S("z")), U(S("z"), I(2), I(3))]
    gs = [G([]), G(["c"]), G(["c"], [I(1)]), G(["c"], [I(2)]), G(["d"], [I(1)]), G(["c"], [I(1)], [I(2)]), G(["c", "d"], [I(1), I(2)])]
    ints = [I(n) for n in (0, 1, -1, k, 100, -2 ** 40, MAX, MIN, 2 ** 53)]
    fl = [F(x) for x in (0.0, 1.0, -1.0, 0.5, float(k), -2.5, 1e300, -1e300, 2.0 ** 40)]
    laws = base + vs + es + ps + ls + ms + us + gs + ints[:5] + fl
    # closer than 1e-8, or beyond the integers a double holds: compared, but outside the laws
    extra = ints[5:] + [F(x) for x in (1 + 5e-9, 1 + 2e-8, 1e-9, -1e-9, 0.5 + 9e-9, 2.0 ** 53, 9.3e18, -2.0 ** 63, k + 9e-9, k - 1.1e-8)] + [L(F(1.0)), L(F(1 + 5e-9)), V(F(float(k)))]
    return laws, extra


def _numbers(x):
    """x with every number replaced"""
    if isinstance(x, tuple) and x and x[0] in ("I", "F") and len(x) == 2:
        return "number"
    if isinstance(x, (tuple, list)):
        return [_numbers(y) for y in x]
    if isinstance(x, dict):
        return {k: _numbers(y) for k, y in x.items()}
    return x


def _hashable(x):
    return x[0] not in "MUG" and (x[0] != "L" or all(_hashable(y) for y in x[1]))


def _canon(x):
    """an edge seen from its front; names of edge types left out"""
    if isinstance(x, tuple) and x and x[0] == "W":
        s, d, t = x[1], x[2], x[3]
        if t < 0:
            s, d, t = d, s, -t
        return ["W", _canon(s), _canon(d), t, x[5], _canon(x[6])]
    if isinstance(x, (tuple, list)):
        return [_canon(y) for y in x]
    return x


def order(c):
    exe = build(c)
    uni = Universe()
    laws, extra = order_universe(c)
    for x in laws:
        uni.add(x)
    f = c.dir + "/laws.ndjson"
    uni.write(f)
    c.tlc("value/OrderMC", "OrderMC.cfg", env={"VF_UNI": f}, timeout=600, stem="laws")
    for x in extra:
        uni.add(x)
    n = len(uni.vals)
    evs = [{"op": op, "a": a, "b": b} for op in ("cmp", "cmp3") for a in range(1, n + 1) for b in range(1, n + 1)
           if c.thorough or op == "cmp" or uni.vals[a - 1][0] == uni.vals[b - 1][0] or c.rng.random() < 0.25]
    hs = [i for i in range(1, n + 1) if _hashable(uni.vals[i - 1])]
    evs += [{"op": "hash", "a": a, "b": b} for a in hs for b in hs if c.thorough or uni.vals[a - 1][0] == uni.vals[b - 1][0] or c.rng.random() < 0.25]
    evs = run_ops(c, exe, uni, evs, "Value comparison")
    c.rng.shuffle(evs)

    def known(e):
        a, b = uni.vals[e["a"] - 1], uni.vals[e["b"] - 1]
        if e["op"] == "hash" and not e["h"] and a != b and _canon(_numbers(a)) == _canon(_numbers(b)):
            return "number-hash"
    decide(c, uni, evs, "Value comparison", known)
    c.assumptions += ["floats are finite", "hashes of maps, sets and datasets are declared not implemented and abort"]


CONTENT = {
    "BOOL": (B(0), B(1)), "INT": (I(-7), I(100)), "FLOAT": (F(0.5), F(-1e300)), "STRING": (S("some text longer than inline"), S("b")),
    "DATE": (("D", 2020, 2, 29), ("D", -1, 1, 1)), "TIME": (("T", 1, 2, 3, 4), ("T", 23, 59, 59, 999999)), "DATETIME": (("X", 2020, 2, 29, 1, 2, 3, 4), ("X", -5, 12, 31, 23, 0, 1, 0)),
}


def contents():
    p1, p2 = CONTENT["STRING"][0], L(I(3), S("y"))
    r = {(k, i + 1): x for k, t in CONTENT.items() for i, x in enumerate(t)}
    r.update({("NULL", i): N(i) for i in range(8)})
    r[("LIST", 2)] = p2
    for i, p in ((1, p1), (2, p2)):
        r[("VERTEX", i)] = V(p, ("t%d" % i, {"a": I(i)}))
        r[("EDGE", i)] = W(p, S("d"), i, "name%d" % i, 7 * i, a=I(i))
        r[("PATH", i)] = P(V(p), *[(V(S("z")), 1, "st", 0, {})] * i)
        if i == 1:
            r[("LIST", 1)] = L(p)
        r[("MAP", i)] = M(k=p)
        r[("SET", i)] = U(p)
        r[("DATASET", i)] = G(["c%d" % i], [p])
    return r


FLAG = {"BOOL": "isBool", "INT": "isInt", "FLOAT": "isFloat", "STRING": "isStr", "DATE": "isDate", "TIME": "isTime", "DATETIME": "isDateTime", "VERTEX": "isVertex",
        "EDGE": "isEdge", "PATH": "isPath", "LIST": "isList", "MAP": "isMap", "SET": "isSet", "DATASET": "isDataSet"}


def holder(c):
    """C07"""
    exe = build(c, "holder", ["-DNDEBUG"])
    lib = contents()

    def txt(k, i):
        return "E" if k == "EMPTY" else v.text(lib[(k, i)]).replace("0x1.0000000000000p", "0x1p")

    def see(o):
        f = []
        if o["k"] == "EMPTY":
            f.append("empty")
        if o["k"] == "NULL":
            f.append("isNull")
        if o["bad"]:
            f.append("isBadNull")
        if o["numeric"]:
            f.append("isNumeric")
        if o["k"] in FLAG:
            f.append(FLAG[o["k"]])
        return "%s;%s;%s" % (txt(o["k"], o["v"]), o["name"], "".join(x + "," for x in f))

    def op(ev):
        o, d = ev["op"], ev.get("d")
        if o == "set":
            return "set %d %s %d %d" % (d, ev["k"], ev["v"], ev["how"])
        if o == "mutate":
            return "mutate %d %s %d" % (d, ev["obs"][d - 1]["k"], ev["v"])
        return " ".join([o] + [str(ev[k]) for k in ("d", "s", "how") if k in ev and not (o == "movepart" and k == "s")])

    def obs(ev, st):
        s = [see(o) for o in ev["obs"]] + ["E;__EMPTY__;empty,"] * (2 - len(ev["obs"]))
        return "|".join(s + ([txt(ev["k"], ev["v"])] if ev["op"] == "take" else [""]))

    libf = c.dir + "/contents.txt"
    open(libf, "w").write("".join("lib %s %d %s\n" % (k, i, v.text(x)) for (k, i), x in lib.items()))
    # every way of filling one value; then two values, all kinds against all
    allk = list(FLAG) + ["NULL"]
    q = lambda ks: "{" + ", ".join('"%s"' % k for k in ks) + "}"
    confs = [("{1}", "{%s}" % ", ".join(map(str, range(24))), allk)]
    if c.thorough:
        confs.append(("{1, 2}", "{0}", allk))
    else:
        for _ in range(3):
            confs.append(("{1, 2}", "{%d}" % c.rng.randrange(6), ["STRING", "LIST"] + c.rng.sample([k for k in allk if k not in ("STRING", "LIST")], 4)))
    for i, (slots, hows, ks) in enumerate(confs):
        consts = {"Slots": slots, "Hows": hows, "KindsUsed": q(ks)}
        g = c.graph(c.tlc("value/Holder", "Holder.cfg", consts=consts, stem="holder%d" % i, timeout=800))
        if i == 1:
            c.tlc("value/Holder", "HolderProp.cfg", consts=consts, stem="holderp", workers=4)
        walks = g.cover(rng=c.rng) + g.random_walks(200 if c.thorough else 30, 150, c.rng)
        c.replay(exe, walks, op, obs, args=[libf], what="value as a container", timeout=600)
    # accessors of the wrong type refuse to answer
    lines, want = [], []
    for k in ["EMPTY"] + allk:
        for a in allk:
            for acc in ["get", "mutable", "move"] + (["ptr"] if a in ("VERTEX", "EDGE", "PATH", "LIST", "MAP", "SET", "DATASET") else []):
                if c.thorough or k == a or c.rng.random() < 0.25:
                    lines.append("access %s 1 %s %s" % (k, a, acc))
                    want.append("yes" if k == a else "no")
    out, crash = c.drive(exe, lines, 600, args=[libf])
    for l, wnt, o in zip(lines, want, out):
        if o != wnt:
            raise vf.Violation("value as a container: %s: an accessor %s" % (l, "of another type gave an answer" if wnt == "no" else "of its own type gave none"), {"kind": "replay", "script": [l]})
    if crash or len(out) < len(lines):
        raise vf.CheckError("accessor driver: %s" % crash)
    c.ops += len(lines)
    c.per_action["access"] += len(lines)


def shape_universe(c):
    rng = c.rng
    ids = [S("a"), S("bb"), I(1), I(2), I(-3)]
    prop = lambda: rng.choice([I(rng.randrange(-5, 99)), S(rng.choice(["", "x", 'q"', "long text of some length"])), B(1), N(rng.randrange(8)), E, ("D", 2020, 1, rng.randrange(1, 29)), L(I(1), S("y"))])
    props = lambda n: {k: prop() for k in rng.sample(["p", "q", "r", "k2"], rng.randrange(n + 1))}
    vert = lambda i=None: V(i or rng.choice(ids), *[(rng.choice(["t", "tag2", ""]), props(2)) for _ in range(rng.choice([0, 0, 0, 1, 2]))])
    plain = lambda i: ("V", i, [])
    step = lambda d=None: (d or plain(rng.choice(ids)), rng.choice([1, 2, -1, -2, 7]), rng.choice(["e", "like", ""]).encode(), rng.choice([0, 0, 1, -5]), {k.encode(): x for k, x in props(1).items()} if rng.random() < 0.3 else {})
    n = 4 if c.thorough else 1
    r = {k: [] for k in "VWPLMUGDTXO"}
    for _ in range(60 * n):
        r["V"].append(vert())
        r["W"].append(("W", rng.choice(ids), rng.choice(ids), rng.choice([1, -1, 3, -30000]), rng.choice([b"e", b"like"]), rng.choice([0, 1, -2, 100000]), {k.encode(): x for k, x in props(2).items()}))
    for _ in range(150 * n):
        k = rng.choice([0, 1, 1, 2, 2, 3, 4, 6])
        few = rng.sample(ids, rng.choice([2, 3, 5]))
        r["P"].append(("P", plain(rng.choice(few)) if rng.random() < 0.8 else vert(), [step(plain(rng.choice(few)) if rng.random() < 0.8 else vert()) for _ in range(k)]))
    # paths there and back on the same edges
    for _ in range(40 * n):
        a, b = rng.sample(ids, 2)
        t, rk = rng.choice([1, 2]), rng.choice([0, 1])
        s1 = (plain(b), rng.choice([t, -t]), b"e", rk, {})
        s2 = (plain(a), rng.choice([s1[1], -s1[1]]), rng.choice([b"e", b"f"]), rng.choice([rk, rk, rk + 1]), {})
        p = ("P", plain(a), [s1, s2])
        if rng.random() < 0.5:
            p = ("P", plain(rng.choice(ids)), [(plain(a), 5, b"x", 0, {}), s1, s2])
        r["P"].append(p)
    for _ in range(30 * n):
        r["L"].append(L(*[prop() for _ in range(rng.randrange(5))]))
        r["M"].append(("M", {k.encode(): x for k, x in props(3).items()}))
        u = []
        for x in [I(rng.randrange(9)), S(rng.choice("abc")), B(1), ("D", 2020, 1, 2)][:rng.randrange(5)]:
            u.append(x)
        r["U"].append(U(*u))
    for _ in range(45 * n):
        w = rng.randrange(4)
        cols = [rng.choice([b"c", b"d", b"e", b"c", b""]) for _ in range(w)]
        r["G"].append(("G", cols, [[prop() for _ in range(w)] for _ in range(rng.choice([0, 1, 1, 2, 3]))]))
    r["D"] = [("D", 2020, 2, 29), ("D", -5, 12, 1)]
    r["T"] = [("T", 1, 2, 3, 4), ("T", 23, 59, 59, 999999)]
    r["X"] = [("X", 2020, 1, 2, 3, 4, 5, 6), ("X", 5, 1, 2, 3, 4, 5, 600)]
    r["O"] = [E, B(0), B(1), I(0), I(-2 ** 31 + 1), S(""), S("text"), S(b"\0\xff")] + [N(k) for k in range(8)] + [I(k) for k in range(3)]
    return r


def shapes(c):
    """C35"""
    exe = build(c, "shape", ["-flifetime-dse=0"])
    rng, uni = c.rng, Universe()
    u = shape_universe(c)
    ix = {k: [uni.add(x) for x in l] for k, l in u.items()}
    keys = [uni.add(S(k)) for k in ("p", "q", "r", "k2", "c", "d", "", "nokey")]
    evs = []
    one = lambda op, l, k="a": [evs.append({"op": op, "a": a}) for a in l]
    for op, l in (("preverse", "P"), ("dupv", "P"), ("dupe", "P"), ("ereverse", "W"), ("eformat", "W"), ("size", "LMU"), ("items", "L"), ("dump", "G"), ("text", "VWPLMUGDTXO"), ("clear", "VWPLMUGDTX"), ("fresh", "VWPLMUGDTX")):
        for k in l:
            one(op, ix[k][:3] if op == "fresh" else ix[k])
    n = 4 if c.thorough else 1

    def two(op, la, lb, count, fit=None):
        left = count
        for _ in range(count * 20):
            a, b = rng.choice(la), rng.choice(lb)
            if fit is None or rng.random() < 0.3 or fit(uni.vals[a - 1], uni.vals[b - 1]):
                evs.append({"op": op, "a": a, "b": b})
                left -= 1
                if not left:
                    return
    node = lambda p: p[2][-1][0] if p[2] else p[1]
    two("pappend", ix["P"], ix["P"], 400 * n, lambda p, q: node(p) == q[1])
    evs.extend({"op": "pappend", "a": a, "b": b} for a in ix["P"] for b in ix["P"] if uni.vals[a - 1][1] == uni.vals[b - 1][1] and rng.random() < 0.02)
    two("addstep", ix["P"], ix["P"], 60 * n)
    for k in "WVM":
        two("value", ix[k], keys, 120 * n)
        two("contains", ix[k], keys + ix["O"], 120 * n)
    two("contains", ix["L"], ix["O"] + ix["D"] + ix["L"], 120 * n, lambda l, x: x in l[1])
    two("contains", ix["U"], ix["O"] + ix["D"] + keys, 120 * n, lambda l, x: x in l[1])
    two("row", ix["G"], ix["L"], 150 * n, lambda g, l: len(g[1]) == len(l[1]))
    two("stack", ix["G"], ix["G"], 200 * n, lambda g, h: g[1] == h[1])
    two("join", ix["G"], ix["G"], 200 * n, lambda g, h: len(g[2]) == len(h[2]))
    two("column", ix["G"], keys, 150 * n)
    names = [b"", b"a", b"b", b"ab", b"127.0.0.1", b"127.0.0.2", b"\xff", b"host\0x"]
    for _ in range(300 * n):
        x, y = ({"host": rng.choice(names), "port": rng.choice([0, 1, 80, 65535, 44500])} for _ in range(2))
        if rng.random() < 0.3:
            y = dict(x)
        evs.append({"op": "host", "x": {"host": v.codes(x["host"]), "port": x["port"]}, "y": {"host": v.codes(y["host"]), "port": y["port"]},
                    "args": [v.hx(x["host"]), x["port"], v.hx(y["host"]), y["port"]]})
    evs = run_ops(c, exe, uni, evs, "paths, data sets and collections")
    rng.shuffle(evs)
    decide(c, uni, evs, "paths, data sets and collections", spec="value/ShapeTrace")
