"""Replays every transition of specs/cord/CordGen.tla into Cord and ICord at tiny block
sizes, and validates recorded random histories (typed writes, early-stopped visits, blocks
of any size) against specs/cord/CordTrace.tla."""
import struct
import vf

CONFIGS = [("cord", "9", "9"), ("cord", "10", "10"), ("cord", "11", "9"), ("cord", "9", "12"),
           ("icord", "1"), ("icord", "2"), ("icord", "8")]
BIG = [("cord", "0", "0"), ("cord", "128", "16"), ("cord", "16", "1024"), ("icord", "64"), ("icord", "1024"), ("icord", "8")]


def hexs(s):
    return "x" + "".join("%02x" % b for b in s)


def op(ev):
    if ev["op"] == "write":
        return "write %s %s %s" % (ev["c"], ev.get("how", "raw"), hexs(ev["s"]))
    if ev["op"] == "put":
        return "put %s %s %d" % (ev["c"], ev["t"], ev["v"])
    if ev["op"] == "append":
        return "append %s %s" % (ev["c"], ev["s"])
    if ev["op"] == "clear":
        return "clear %s" % ev["c"]
    return "visit %s %d" % (ev["c"], ev["k"])


def obs(ev, st):
    return "%s %s" % ("".join(map(str, st["a"])), "".join(map(str, st["b"])))


def rand_history(rng, length, scale):
    t, n = [], {"a": 0, "b": 0}
    for _ in range(length):
        c = rng.choice("ab")
        k = rng.random()
        if k < 0.35:
            how = rng.choice(["raw", "raw", "str", "cstr", "f32", "f64"])
            ln = rng.choice([0, 1, 2, 3, 7, 8, 9, scale - 1, scale, scale + 1, 2 * scale, 2 * scale + 1, rng.randrange(3 * scale + 1)])
            s = [rng.randrange(256) for _ in range(max(ln, 0))]
            if how == "cstr":
                s = [b or 1 for b in s]
            elif how == "f32":
                s = list(struct.pack("<f", rng.choice([0.0, -1.5, 3e38, rng.random()])))
            elif how == "f64":
                s = list(struct.pack("<d", rng.choice([0.0, -1.5, 1e300, rng.random()])))
            t.append({"op": "write", "c": c, "how": how, "s": s})
            n[c] += len(s)
        elif k < 0.65:
            ty = rng.choice(["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "char", "bool"])
            lo, hi = {"i8": (-128, 127), "u8": (0, 255), "i16": (-32768, 32767), "u16": (0, 65535), "i32": (-2**31, 2**31 - 1),
                      "u32": (0, 2**31 - 1), "i64": (-2**31, 2**31 - 1), "u64": (0, 2**31 - 1), "char": (-128, 127), "bool": (0, 1)}[ty]
            t.append({"op": "put", "c": c, "t": ty, "v": rng.choice([lo, hi, max(lo, -1), 0, rng.randint(lo, hi)])})
            n[c] += int(ty[1:]) // 8 if ty[1:].isdigit() else 1
        elif k < 0.75:
            d = rng.choice("ab")
            if n[c] + n[d] < 6 * scale + 100:
                t.append({"op": "append", "c": c, "s": d})
                n[c] += n[d]
        elif k < 0.85 or n[c] > 6 * scale + 100:
            t.append({"op": "clear", "c": c})
            n[c] = 0
        else:
            t.append({"op": "visit", "c": c, "k": rng.choice([0, 1, 2, 3, 4])})
    return t


def body(c):
    exe = c.build("cord", [vf.VERIF + "/harness/cord_driver.cpp", "common/base/Cord.cpp"],
                  libs=("-lglog", "-lgflags", "-lpthread", "-Wl,--wrap=malloc", "-Wl,--wrap=free"))
    g = c.graph(c.tlc("cord/CordGen", "MC.cfg", consts={"MaxLen": 6 if c.thorough else 4}))
    walks = g.cover(rng=c.rng) + g.random_walks(40, 200, c.rng)
    for cf in CONFIGS:
        c.replay(exe, walks, op, obs, args=[cf[0], "brief"] + list(cf[1:]), reset_obs="{}", what="%s of block size %s" % (cf[0], "/".join(cf[1:])))
    traces = []
    for cf in CONFIGS + BIG:
        scale = min(1016, max(int(x) or 1024 for x in cf[1:]) - (8 if cf[0] == "cord" else 0))
        big = scale > 100
        hs = [rand_history(c.rng, 12 if big else 40, scale) for _ in range((10 if c.thorough else 2) if big else (60 if c.thorough else 12))]
        tr = c.record(exe, hs, op, args=[cf[0], "json"] + list(cf[1:]), what="%s of block size %s" % (cf[0], "/".join(cf[1:])))
        for t in tr:
            for e in t:
                c.expect(e.get("chain", True), "an appending operator does not return the cord it appended to", {"event": {k: e[k] for k in ("op", "c")}})
        traces += tr
    c.validate("cord/CordTrace", "Trace.cfg", traces, what="cord")
    c.assumptions += ["cords are not copied (their copy constructor is not meant to be used)", "allocation succeeds"]
