"""StatsManager: recorded calls over a moved clock, and schedules of concurrent use, validated against specs/stats (C26)."""
import concurrent.futures, json
import vf, conc
PROBE = "-I" + vf.VERIF + "/harness/stats_probe"
SRC = ["common/stats/StatsManager.cpp", "common/base/Status.cpp"]
RANGES = [5, 60, 600, 3600]


def text(r):
    w = ["sum", "count", "avg", "rate", "p1", "p9", "p95", "p99", "p999", "p9999", "p99999", "p999999", "p50", "p05", "p100", "p123456", "p0"]
    bad = ["p", "p1234567", "p9x", "px", "max", "", " ", "sum count", "rates", "pp9", "q99"]
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5])):
        s = r.choice(w) if r.random() < .8 else r.choice(bad)
        if r.random() < .4: s = "".join(ch.upper() if r.random() < .5 else ch for ch in s)
        if r.random() < .4: s = r.choice([" ", "\t", "  ", "\n", "\r "]) + s
        if r.random() < .3: s = s + r.choice([" ", "\t", "  "])
        out.append(s)
    return ",".join(out) + ("," if r.random() < .1 else "")


def metric(r, names):
    name = r.choice(names + ["nobody"]) if r.random() < .9 else ""
    m = r.choice(["sum", "count", "avg", "rate", "Sum", "COUNT", "rAte", "AVG", "p9", "p95", "P99", "p999", "p9999", "P99999", "p123456", "p000001", "p5", "p50"]) if r.random() < .85 else r.choice(["p", "p1234567", "p9x", "max", "sums", "", "su", "t99"])
    rg = str(r.choice(RANGES)) if r.random() < .88 else r.choice(["", "6", "05", "5 ", "300", "36000", "s", "50", "3601"])
    s = ".".join([name, m, rg])
    if r.random() < .06: s = r.choice([s + ".5", name + "." + m, name, "", s + ".", "." + s, ".", name + ".." + m + "." + rg])
    return s


def script(r, n):
    """Events with their inputs; cnt follows which ids exist."""
    now, names, kinds, ev, cnt = r.choice([10000, 1, 1605800000]), [], {}, [], {True: 0, False: 0}
    ev.append({"op": "at", "now": now})
    for _ in range(n):
        k = r.random()
        if k < .12 or not names:
            nm = r.choice(names) if names and r.random() < .4 else "c" + "".join(r.choice("abAB_ 9\u00e9") for _ in range(r.choice([0, 1, 3])))
            h = kinds.get(nm, r.random() < .55)
            if nm not in kinds: names.append(nm); cnt[h] += 1
            kinds[nm] = h
            lo = r.choice([0, 1, 10, -50]); w = r.choice([1, 7, 10, 100])
            ev.append({"op": "reg", "name": nm, "histo": h, "w": w if h else 1, "lo": lo if h else 0, "hi": lo + w * r.choice([1, 5, 10]) if h else 0, "text": text(r)})
        elif k < .45:
            h = r.random() < .5
            if not cnt[h]: h = not h
            i = r.randint(1, cnt[h])
            v = r.choice([1, 1, 2, 3, 5, 10, 50, 99, 100, 101, 999, -1, -60, 0]) if r.random() < .8 else r.randint(-1000, 1000)
            ev.append({"op": "add", "c": -i if h else i, "x": v, "d": v == 1 and r.random() < .7})
        elif k < .58:
            now += r.choice([0, 1, 1, 2, 4, 5, 6, 30, 54, 55, 59, 60, 61, 540, 599, 600, 601, 2999, 3000, 3599, 3600, 3601])
            ev.append({"op": "at", "now": now})
        elif k < .8: ev.append({"op": "read", "text": metric(r, names)})
        elif k < .85: ev.append({"op": "stat", "c": r.choice([0] + list(range(1, cnt[False] + 1)) + [-i for i in range(1, cnt[True] + 1)]), "r": r.choice(RANGES), "m": r.choice(["sum", "count", "avg", "rate"])})
        elif k < .88: ev.append({"op": "statn", "name": r.choice(names + ["none"]), "r": r.choice(RANGES), "m": r.choice(["sum", "count", "avg", "rate"])})
        elif k < .92: ev.append({"op": "pct", "c": r.choice([0, 1, 7, -cnt[True] - 1, -cnt[True] - 5] + [-i for i in range(1, cnt[True] + 1)] * 3), "r": r.choice(RANGES), "units": r.choice([0, 1, 500000, 950000, 999900, 1000000])})
        elif k < .95: ev.append({"op": "pctn", "name": r.choice(names + ["none"]), "r": r.choice(RANGES), "units": r.choice([1, 500000, 990000, 999999])})
        else: ev.append({"op": "all"})
    ev.append({"op": "all"})
    return ev


def b(s): return s.encode("utf8")
def hx(s): return '"' + b(s).hex() + '"'


def line(e):
    o = e["op"]
    if o == "at": return "at %d" % e["now"]
    if o == "reg": return ("histo %s %s %d %d %d" % (hx(e["name"]), hx(e["text"]), e["w"], e["lo"], e["hi"])) if e["histo"] else "reg %s %s" % (hx(e["name"]), hx(e["text"]))
    if o == "add": return "add %d" % e["c"] if e["d"] else "add %d %d" % (e["c"], e["x"])
    if o == "read": return "read " + hx(e["text"])
    if o in ("stat", "pct"): return "%s %d %d %s" % (o, e["c"], e["r"], e.get("m", e.get("units")))
    if o in ("statn", "pctn"): return "%s %s %d %s" % (o, hx(e["name"]), e["r"], e.get("m", e.get("units")))
    return o


def show(e):
    d = dict(e)
    for k in ("name", "text"):
        if isinstance(d.get(k), list): d[k] = bytes(d[k]).decode("utf8", "replace")
    if "all" in d: d["all"] = {bytes(x["k"]).decode("utf8", "replace"): x["v"] for x in d["all"]}
    return d


def body(c):
    c.tlc("stats/StatsMC", "MC.cfg", workers=6)
    exe = c.build("stats", [vf.VERIF + "/harness/stats_driver.cpp"] + SRC, shim=True, flags=[PROBE])
    work = [script(c.rng, 60) for _ in range(500 if c.thorough else 120)]

    def go(t):
        out, crash = c.drive(exe, [line(e) for e in t], 60)
        return out, crash
    with concurrent.futures.ThreadPoolExecutor(8) as ex: outs = list(ex.map(go, work))
    recs = []
    for t, (out, crash) in zip(work, outs):
        if crash or len(out) < len(t):
            k = min(len(out), len(t) - 1)
            raise vf.Violation("statistics: %s: %s" % (show(t[k]), crash), {"kind": "replay", "driver": "stats", "script": [line(e) for e in t[:k + 1]], "why": str(crash)})
        rec = []
        for e, o in zip(t, out):
            d = {k: list(b(x)) if k in ("name", "text") else x for k, x in e.items()}
            d.update(json.loads(o))
            rec.append(d)
        recs.append(rec)
    c.validate_parallel("stats/StatsTrace", "Trace.cfg", recs, what="statistics", show=show)
    c.samples = [{"trace": [show(e) for e in recs[len(recs) // 2][:10]]}]
    # used by several threads
    exe = conc.build(c, "statsconc", SRC, "stats_driver.cpp", shim="headers", flags=[PROBE, "-DVF_CONC"])
    progs = ["add:1:5 add:1:7 ; add:1:9", "add:2:5 ; add:2:7 ; add:2:9", "add:1:3 sum:1 ; add:1:4 count:1", "add:2:3 most:2 ; add:2:8 sum:2", "sum:2 ; add:2:8 add:2:9 ; most:2", "add:1:1 ; add:2:1 ; add:1:2 ; add:2:2"]
    for _ in range(60 if c.thorough else 10):
        progs.append(" ; ".join(" ".join(c.rng.choice(["add:1:%d", "add:2:%d", "add:2:%d"]) % c.rng.randint(1, 99) if c.rng.random() < .6 else c.rng.choice(["sum:1", "count:1", "sum:2", "count:2", "most:2"])
                                         for _ in range(c.rng.choice([1, 2, 2]))) for _ in range(c.rng.choice([2, 3]))))
    conc.explore(c, exe, progs, "stats/SharedTrace", "Trace.cfg", "statistics used by several threads", dev=3 if c.thorough else 2, runs=8000 if c.thorough else 800, rnd=500 if c.thorough else 60)
    c.assumptions += ["counters are registered before they are used by several threads (as documented)", "folly's time series and histogram are replaced by exact sliding windows and the nearest rank",
                      "a name is registered as one kind only; an id that is read was given by a registration (or is 0, or for percentiles any)"]
