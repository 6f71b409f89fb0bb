"""Dates, times and time zones (C34)."""
import concurrent.futures, json, os
import vf
import vals as v
import exprs as xp
from vals import E, N, B, I, F, S, L, M
from value import Universe, DT
import funcs

MAX, MIN = 2 ** 63 - 1, -2 ** 63
REGIONS = [("Asia/Shanghai", "CST", "China Standard Time", "+08:00:00", ""), ("America/New_York", "EST", "Eastern Standard Time", "-05:00:00", "EDT"), ("Asia/Kolkata", "IST", "India Standard Time", "+05:30:00", ""),
           ("X", "XX", "X", "-11:45:30", ""), ("America/St_Johns", "NST", "Newfoundland", "-03:30:00", "NDT"), ("UTC", "UTC", "Universal", "+00:00:00", "")]
HEAD = '"ID","STD ABBR","STD NAME","DST ABBR","DST NAME","GMT offset","DST adjustment","DST Start Date rule","Start time","DST End date rule","End time"\n'


def table(c):
    good, bad = c.dir + "/regions.csv", c.dir + "/bad.csv"
    with open(good, "w") as f:
        f.write(HEAD)
        for i, a, n, o, d in REGIONS:
            rest = ["+01:00:00", "1;0;4", "+02:00:00", "-1;0;10", "+02:00:00"] if d else ["", "", "", "", ""]
            f.write(",".join('"%s"' % x for x in [i, a, n, d, d, o] + rest) + "\n")
    with open(bad, "w") as f: f.write(HEAD + '"A","B","C"\n')
    secs = lambda o: (-1 if o[0] == "-" else 1) * sum(int(x) * k for x, k in zip(o[1:].split(":"), (3600, 60, 1)))
    with open(c.dir + "/table.ndjson", "w") as f:
        for i, a, n, o, d in REGIONS: f.write(json.dumps({"id": list(i.encode()), "name": list(n.encode()), "off": secs(o)}) + "\n")
    os.environ["VF_TABLE"] = c.dir + "/table.ndjson"
    return good, bad


def zone_text(g):
    r = g.rng.random()
    name = g.pick(["EST", "UTC", "CST", "Abc", "LONGNAME", "GMT", "AAA"])
    if r < .7:
        h = g.rng.randrange(0, 15) if g.p(.8) else g.pick([12, 13, 14, 15, 20, 24, 99])
        o = "%02d" % h
        if g.p(.7): o += ":%02d" % g.pick([0, 0, 30, 45, 59, 1])
        if ":" in o and g.p(.6): o += ":%02d" % g.pick([0, 0, 30, 59, 1])
        return (name + g.pick(["+", "-", ""]) + o).encode(), False
    if r < .8:
        return (name + g.pick(["+", "-"]) + "%02d:%02d:00" % (g.rng.randrange(12), g.pick([0, 30])) + "EDT" + g.pick(["+01:00:00", "+01", ""]) + g.pick([",M4.1.0/02:00:00,M10.5.0/02:00:00", ",M3.2.0,M11.1.0", ",J60,J300/03:00:00"])).encode(), True
    return g.pick([b"233333333333", b"", b"99", b"123", b"EST", b"E", b"EST+", b"+05:00", b"EST-05:00:00EDT", b"EST-05:00:00EDT+01:00:00,", b"EST5x", b"  ", b",", b"AB+01:00:00", b"EST-15:00", b"EST+14:00:01", b"EST-12:00:01", b"EST-12:00:00", b"EST+14:00:00"]), False


def event(g, good, bad):
    r = g.rng.random()
    any_ = lambda k: g.value(k)
    date = lambda: ("D", g.pick([g.rng.randrange(-30000, 30000), g.rng.randrange(1890, 2110)]), g.rng.randrange(1, 13), g.rng.randrange(1, 29))
    time = lambda: ("T", g.rng.randrange(24), g.rng.randrange(60), g.rng.randrange(60), g.pick([0, 1, 999999, g.rng.randrange(10 ** 6)]))
    dt = lambda: ("X",) + g.pick([date()[1:], (2020, 2, 29), (2019, 12, 31), (2020, 1, 1), (2000, 3, 1), (1900, 2, 28)]) + time()[1:]
    if r < .2:
        k = g.pick(["date", "time", "datetime"])
        f = {"date": funcs.date_text, "time": funcs.time_text, "datetime": funcs.dt_text}[g.pick([k, k, k, k, "date", "time", "datetime"])]
        x = f(g)
        if g.p(.3) and k == "date": x = S("%04d-%02d-%02d" % (g.rng.randrange(10000), g.rng.randrange(14), g.rng.randrange(34)))
        return {"op": "parse", "k": k, "x": x}
    if r < .42:
        k = g.pick(["date", "time", "datetime"])
        names = {"date": funcs.D, "time": funcs.T, "datetime": funcs.D + funcs.T}[k]
        return {"op": "map", "k": k, "x": funcs.fields(names, .7)(g)}
    if r < .5: return {"op": "stamp", "x": g.pick([funcs.dt_text(g), funcs.dt_text(g), I(g.pick([0, 1, -1, 9223372036, 9223372037, MAX, MIN, g.rng.randrange(10 ** 10)])), funcs.odd(g)])}
    if r < .64: return {"op": "shift", "to": g.pick(["utc", "local"]), "x": g.pick([time, dt, dt])()}
    if r < .76:
        n = g.pick(["year", "month", "day", "hour", "minute", "second", "microsecond"])
        n = g.pick([n, n, n.upper(), n.capitalize(), n[:-1] + n[-1].upper()]) if g.p(.9) else g.pick(["", "years", "yea", "ms", "sec", "year\0", "min"])
        return {"op": "attr", "x": g.pick([date, time, dt])(), "n": n.encode()}
    if r < .8:
        x = g.pick([date, dt])()
        return {"op": "valid", "x": x[:3] + (g.rng.randrange(26, 32),) + x[4:]}
    if r < .86: return {"op": "now", "of": g.pick(["local", "local", "utc"]), "t": g.pick(["DATE", "TIME", "DATETIME"])}
    if r < .92:
        c, dst = zone_text(g)
        return {"op": "zone", "c": c, "dst": dst}
    region = lambda: g.pick([x[0] for x in REGIONS] + ["Nowhere", "", "asia/shanghai", "XX"]).encode()
    if r < .93: return {"op": "region", "c": region()}
    ok = g.p(.8)
    if r < .935: return {"op": "table", "file": ok, "path": good if ok else g.pick([bad, "/nonexistent.csv"])}
    # before the first table is read and from a table that is refused the regions read so far stay
    name = lambda: g.pick([zone_text(g)[0] if g.p(.7) else b"UTC+00:00:00", b":" + region()])
    c = name() if g.p(.8) else b""
    e = {"op": "global", "c": c, "file": ok, "path": good if ok else g.pick([bad, "/nonexistent.csv"]), "set": g.p(.5), "env": b""}
    if e["set"]: e["env"] = name() if g.p(.8) else b""
    # a summer time is left to "zone"
    if any(x.count(b",") > 1 for x in (e["c"], e["env"])): e["c"] = b"UTC+00:00:00"
    return e


def line(e):
    o = e["op"]
    if o in ("parse", "map"): return "%s %s %s" % (o, e["k"], v.hx(e["x"][1]) if o == "parse" else v.text(e["x"]))
    if o in ("stamp", "valid"): return "%s %s" % (o, v.text(e["x"]))
    if o == "shift": return "shift %s %s" % (e["to"], v.text(e["x"]))
    if o == "attr": return "attr %s %s" % (v.text(e["x"]), v.hx(e["n"]))
    if o == "now": return "now %s %s" % (e["of"], e["t"].lower())
    if o in ("zone", "region"): return "%s %s" % (o, v.hx(e["c"]))
    if o == "table": return "table %s" % e["path"]
    return "global %s %s" % (e["path"], v.hx(e["c"])) + (" " + v.hx(e["env"]) if e["set"] else "")


def body(c):
    exe = c.build("times", [vf.VERIF + "/harness/times_driver.cpp"] + DT + ["common/time/TimeUtils.cpp", "common/time/TimezoneInfo.cpp", "common/time/TimeConversion.cpp", "common/time/WallClock.cpp", "common/time/detail/TscHelper.cpp",
                                                                       "common/fs/FileUtils.cpp", "common/base/Status.cpp", "common/base/Base.cpp"], shim=True)
    good, bad = table(c)
    g = xp.Gen(c.rng)
    traces = [[event(g, good, bad) for _ in range(40)] for _ in range(400 if c.thorough else 100)]
    for t in traces:        # the first thing is a zone to work with
        t.insert(0, {"op": "global", "c": funcs.zone(g.pick([0, 8 * 3600, -5 * 3600, 5 * 3600 + 1800, -11 * 3600 - 2700, 13 * 3600, 59, -1])).encode(), "file": True, "path": good, "set": False, "env": b""})
    uni = Universe()

    def go(t):
        out, crash = c.drive(exe, ["reset"] + [line(e) for e in t], 60)
        return out, crash
    with concurrent.futures.ThreadPoolExecutor(8) as ex: outs = list(ex.map(go, traces))
    recs = []
    for t, (out, crash) in zip(traces, outs):
        if crash or len(out) < len(t) + 1:
            k = min(len(out), len(t)) 
            raise vf.Violation("times: %s: %s" % (line(t[max(0, k - 1)]), crash), {"kind": "replay", "driver": "times", "script": ["reset"] + [line(e) for e in t[:k + 1]], "why": str(crash)})
        rec = []
        for e, o in zip(t, out[1:]):
            d = {k: list(x) if isinstance(x, bytes) else x for k, x in e.items() if k != "path"}
            if "x" in d: d["x"] = uni.add(e["x"])
            d.update(json.loads(o))
            if "r" in d: d["r"] = uni.add(v.parse(d["r"]))
            rec.append(d)
        recs.append(rec)
    f = c.dir + "/universe.ndjson"
    uni.write(f)
    os.environ["VF_UNI"] = f

    def show(e):
        d = dict(e)
        for k in ("x", "r"):
            if k in d: d[k] = v.text(uni.vals[d[k] - 1])
        for k in ("c", "n", "env", "name"):
            if k in d: d[k] = bytes(d[k]).decode("latin1")
        return d
    c.validate_parallel("times/TimesTrace", "Trace.cfg", recs, what="dates and times", show=show)
    c.samples = [{"trace": [show(e) for e in recs[len(recs) // 2][:8]]}]
