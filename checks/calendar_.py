"""Every day of every year and random conversions, differences, shifts and comparisons of
dates and times, decided by specs/calendar."""
import datetime
import vf

LENS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def rnd_dt(rng):
    y = rng.choice([rng.randint(-32768, 32767), rng.randint(1890, 2110), rng.choice([-32768, 32767, -1, 0, 1, -4, -100, -400, 1900, 2000, 1970, 1969, 2100])])
    mo = rng.choice([1, 2, 3, 12, rng.randint(1, 12)])
    ln = LENS[mo - 1] + (mo == 2 and leap(y))
    d = rng.choice([1, ln, rng.randint(1, ln)])
    h, mi, s = rng.choice([(0, 0, 0), (23, 59, 59), (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))])
    return {"y": y, "mo": mo, "d": d, "h": h, "mi": mi, "s": s}


def near(rng, t):
    t = dict(t)
    k = rng.choice(["y", "mo", "d", "h", "mi", "s", "none"])
    if k == "y":
        t["y"] = max(-32768, min(32767, t["y"] + rng.choice([-1, 1])))
        t["d"] = min(t["d"], 28)
    elif k != "none":
        lo, hi = {"mo": (1, 12), "d": (1, 28), "h": (0, 23), "mi": (0, 59), "s": (0, 59)}[k]
        t[k] = rng.randint(lo, hi)
        t["d"] = min(t["d"], 28)
    return t


def f(t, us):
    return "%d %d %d %d %d %d %d" % (t["y"], t["mo"], t["d"], t["h"], t["mi"], t["s"], us)


def op(e):
    o = e["op"]
    if o in ("year", "dyear"):
        return "%s %d" % (o, e["y"])
    if o == "fromInt":
        return "fromInt %d" % e["n"]
    if o in ("plus", "minus"):
        return "%s %s %d" % (o, f(e["t"], 0), e["n"])
    if o in ("fromUnix", "secTime"):
        return "%s %d %d" % (o, e["p"]["d"], e["p"]["s"])
    if o in ("diff", "cmp", "hash"):
        return "%s %s %s" % (o, f(e["t"], e["us"]), f(e["t2"], e["us2"]))
    r = "%s %s" % (o, f(e["t"], e.get("us", 0)))
    return r + (" %d %d" % (e["off"]["d"], e["off"]["s"]) if "off" in e else "")


def offset(rng):
    k = rng.random()
    if k < 0.3:
        s = rng.choice([0, 1, -1, 28800, -28800, 43200, -43200, 50400, 3599, -3601])
    elif k < 0.6:
        s = rng.randint(-200000, 200000)
    else:
        s = rng.randint(-10**9, 10**9)
    return {"d": s // 86400, "s": s % 86400}


def safe(t):
    return dict(t, y=max(-32700, min(32700, t["y"])), d=min(t["d"], 28))


def dday(t):
    return 365 * (t["y"] + 32768) + (t["y"] + 32771) // 4 + sum(LENS[:t["mo"] - 1]) + (t["mo"] > 2 and t["y"] % 4 == 0) + t["d"] - 1


def dates(c):
    c.tlc("calendar/CalendarMC", "MC.cfg", workers=1)
    exe = c.build("dates", [vf.VERIF + "/harness/calendar_driver.cpp", "common/time/TimeConversion.cpp", "common/datatypes/Date.cpp"], flags=["-DVF_DATES"])
    r = c.rng
    years = list(range(-32768, 32767)) if c.thorough else sorted(set(list(range(-50, 50)) + list(range(1500, 2500)) + list(range(-32768, -32700))
                                                                     + list(range(32700, 32767)) + [r.randint(-32767, 32766) for _ in range(2500)]))
    evs = [[{"op": "dyear", "y": y} for y in years[i:i + 4096]] for i in range(0, len(years), 4096)]
    top = dday({"y": 32767, "mo": 12, "d": 31})
    for _ in range(60 if c.thorough else 10):
        t = []
        for _ in range(400):
            o = r.choice(["toInt", "fromInt", "plus", "minus", "plus", "minus", "text", "hash"])
            a, us = rnd_dt(r), r.choice([0, 1, 999999, r.randint(0, 999999)])
            b, us2 = r.choice([a, a, near(r, a), dict(near(r, a), **{k: a[k] for k in r.choice([("y", "mo", "d"), ("h", "mi", "s")])})]), r.choice([us, us, us, 0, 5])
            if b["mo"] == 2 and b["d"] > 28 and not leap(b["y"]):
                b["d"] = 28
            e = {"op": o, "t": a}
            n0 = dday(a)
            if o == "fromInt":
                e = {"op": o, "n": r.choice([0, 1, 365, 366, top, r.randint(0, top)])}
            elif o == "plus":
                e["n"] = r.choice([0, 1, -1, 365, 366, 1461, top - n0, -n0, r.randint(-n0, top - n0), r.randint(-800, 800)])
                e["n"] = max(-n0, min(top - n0, e["n"]))
            elif o == "minus":
                e["n"] = -r.choice([0, 1, -1, 365, 366, 1461, top - n0, -n0, r.randint(-n0, top - n0), r.randint(-800, 800)])
                e["n"] = -max(-n0, min(top - n0, -e["n"]))
            elif o == "hash":
                e.update(us=us, t2=b, us2=us2)
            else:
                e["us"] = us
            t.append(e)
        evs.append(t)
    traces = c.record(exe, evs, op, what="date arithmetic", timeout=60)
    c.validate("calendar/CalendarTrace", "Trace.cfg", traces, what="dates", timeout=800)
    # the recorded finding: the day after 28 February of a century year
    probe = c.record(exe, [[{"op": "plus", "t": {"y": 1900, "mo": 2, "d": 28, "h": 0, "mi": 0, "s": 0}, "n": 1}]], op)[0][0]["res"]
    if "century" in c.known and probe == {"y": 1900, "mo": 2, "d": 29}:
        c.known_hit.add(c.known["century"])
    c.assumptions += ["results are within the 16-bit years"]


def body(c):
    c.tlc("calendar/CalendarMC", "MC.cfg", workers=1)
    exe = c.build("calendar", [vf.VERIF + "/harness/calendar_driver.cpp", "common/time/TimeConversion.cpp", "common/datatypes/Date.cpp"])
    r = c.rng
    if c.thorough:
        years = list(range(-32768, 32768))
    else:
        years = sorted(set(list(range(-450, 450)) + list(range(1500, 2500)) + list(range(-32768, -32600)) + list(range(32600, 32768))
                           + [r.randint(-32767, 32766) for _ in range(2000)]))
    evs = []
    for i in range(0, len(years), 4096):
        evs.append([{"op": "year", "y": y} for y in years[i:i + 4096]])
    for _ in range(60 if c.thorough else 10):
        t = []
        for _ in range(400):
            o = r.choice(["toUnix", "fromUnix", "diff", "shift", "dateShift", "timeShift", "timeSec", "secTime", "cmp"])
            a, us = rnd_dt(r), r.choice([0, 1, 999999, r.randint(0, 999999)])
            b, us2 = (rnd_dt(r) if r.random() < 0.4 else near(r, a)), r.choice([us, us, 0, 999999, r.randint(0, 999999)])
            e = {"op": o}
            if o in ("fromUnix", "secTime"):
                e["p"] = {"d": r.choice([r.randint(-12000000, 11000000), r.randint(-800, 800), -1, 0]), "s": r.choice([0, 86399, r.randint(0, 86399)])}
            elif o in ("diff", "cmp"):
                e.update(t=a, us=us, t2=b, us2=us2)
            elif o in ("toUnix", "timeSec"):
                e.update(t=a, us=us)
            else:
                e.update(t=safe(a), us=us, off=offset(r))
            t.append(e)
        evs.append(t)
    traces = c.record(exe, evs, op, what="calendar conversion", timeout=60)
    c.validate("calendar/CalendarTrace", "Trace.cfg", traces, what="calendar", timeout=800)
    c.extra["years_with_every_day_converted"] = len(years)
    c.assumptions += ["years outside 16 bits and fields out of range are not represented"]
