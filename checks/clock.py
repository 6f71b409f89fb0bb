"""Duration (C08), WallClock and SlowOpTracker (C10) run over virtual time; every recorded
history validated against specs/clock/Clock.tla."""
import vf

FREQS = [(2600000, 4294900000), (1000000, 0), (2593906, 1 << 41), (3999999, (1 << 32) - 5), (24000, 12345), (2600000, (1 << 63) - 10**7)]
WALLS = [1600000000000000000, 1599999999999999000, 1700000000999999000, 86399999000]


def op(e):
    o = e["op"]
    if o in ("start", "slow", "fast"):
        return o
    if o == "tick":
        return "tick %d %d %s" % (e["d"]["s"], e["d"]["u"], e["how"])
    if o in ("new", "reset"):
        return "%s %s %s" % ("new" if o == "new" else "rst", e["n"], "default" if e["dflt"] else int(e["paused"]))
    if o == "warp":
        return "warp %d" % e["d"]["u"]
    if o == "copy":
        return "copy %s %s" % (e["n"], e["m"])
    if o == "isslow":
        return "isslow %s %d %d" % (e["n"], e["thr"], e["dflt"])
    return "%s %s" % (o, e["n"])


def tick(rng, big):
    k = rng.random()
    if k < 0.1 and big:
        s = rng.choice([3600, 86400, 86400 * 40, rng.randrange(10**6)])
        return {"op": "tick", "d": {"s": s, "u": rng.randrange(10**6)}, "how": "jump"}
    u = rng.choice([0, 1, 499, 500, 501, 999, 1000, 1001, 49999, 50001, 499999, 500001, 999999, rng.randrange(10**6), rng.randrange(1000)])
    s = rng.choice([0, 0, 0, 1, 2, 3, rng.randrange(60)])
    return {"op": "tick", "d": {"s": s, "u": u}, "how": "fine"}


def watch_history(rng, n):
    t, on = [{"op": "start"}], []
    for _ in range(n):
        k = rng.random()
        w = rng.choice("abc")
        if k < 0.3:
            t.append(tick(rng, True))
        elif w not in on:
            d = rng.random() < 0.4
            t.append({"op": "new", "n": w, "dflt": d, "paused": False if d else rng.random() < 0.5})
            on.append(w)
        elif k < 0.36:
            d = rng.random() < 0.4
            t.append({"op": "reset", "n": w, "dflt": d, "paused": False if d else rng.random() < 0.5})
        elif k < 0.55:
            t.append({"op": "pause", "n": w})
        elif k < 0.72:
            t.append({"op": "resume", "n": w})
        elif k < 0.75 and len(on) > 1:
            m = rng.choice(on)
            if m != w:
                t.append({"op": "copy", "n": w, "m": m})
        if on:
            t.append({"op": "read", "n": rng.choice(on)})
    return t


def wall_history(rng, n):
    t, on = [{"op": "start"}], {}
    for _ in range(n):
        k = rng.random()
        if k < 0.35:
            t.append(tick(rng, True))
        elif k < 0.5:
            t.append({"op": "slow"})
        elif k < 0.7:
            t.append({"op": "fast"})
        else:
            w = rng.choice("abc")
            if w not in on or rng.random() < 0.3:
                on[w] = 1
                t.append({"op": "track", "n": w})
                ms = rng.choice([0, 5, 48, 50, 52, 1000])
                t.append({"op": "tick", "d": {"s": ms // 1000, "u": ms % 1000 * 1000}, "how": "fine"})
            t.append({"op": "isslow", "n": w, "thr": rng.choice([0, 0, -1, 1, 49, 50, 100, 5, 100000]), "dflt": rng.choice([50, 50, 1000, 7])})
    return t


def run(c, gen, what):
    exe = c.build("clock", [vf.VERIF + "/harness/clock_driver.cpp", "common/time/Duration.cpp", "common/time/WallClock.cpp",
                            "common/time/detail/TscHelper.cpp", "common/base/SlowOpTracker.cpp", "common/thread/NamedThread.cpp"],
                  san=(), libs=("-lglog", "-lgflags", "-lpthread", "-ldl"))
    traces = []
    for khz, tick0 in FREQS:
        for wall in (WALLS if c.thorough else WALLS[:2]):
            hs = [gen(c.rng, 60) for _ in range(12 if c.thorough else 3)]
            if gen is wall_history:
                hs[-1] += [{"op": "track", "n": "a"}, {"op": "tick", "d": {"s": 0, "u": 1000}, "how": "fine"}, {"op": "warp", "d": {"s": 0, "u": 200000}},
                           {"op": "isslow", "n": "a", "thr": 0, "dflt": 50}, {"op": "isslow", "n": "a", "thr": 1, "dflt": 50},
                           {"op": "tick", "d": {"s": 0, "u": 300000}, "how": "fine"}, {"op": "isslow", "n": "a", "thr": 90, "dflt": 50}]
            # the process' age matters to the calibration: one driver run is one history
            h = [e for i, t in enumerate(hs) for e in (t if i == 0 else t[1:])]
            traces += c.record(exe, [h], op, args=[str(khz), str(tick0), str(wall)], what=what)
    for t in traces:
        for e in t:
            e.pop("msg", None)
    c.validate("clock/ClockTrace", "Trace.cfg", traces, what=what)
    c.assumptions += ["the tick counter runs at a constant rate and the wall clock is not stepped"]


def durations(c):
    c.tlc("clock/ClockMC", "MC.cfg", workers=4)
    run(c, watch_history, "stop-watch")


def wall(c):
    c.tlc("clock/ClockMC", "MC.cfg", workers=4)
    run(c, wall_history, "clock")
