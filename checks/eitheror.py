"""Replays every transition of specs/either/EitherOr.tla, and long random walks of it,
into EitherOr<>/ErrorOr<> for five combinations of types."""
import vf


def op(ev):
    o = ev["op"]
    if o in ("new", "drop"):
        return "%s %s" % (o, ev["s"])
    if o in ("newval", "setval"):
        return "%s %s %s %d %s" % (o, ev["s"], ev["k"], ev["v"], ev["how"])
    if o == "setown":
        return "setown %s %s" % (ev["s"], ev["how"])
    if o in ("newfrom", "setfrom"):
        return "%s %s %s %s" % (o, ev["d"], ev["s"], ev["how"])
    if o == "take":
        return "take %s %s" % (ev["s"], ev["k"])
    if o == "write":
        return "write %s %s %d" % (ev["s"], ev["k"], ev["v"])
    raise ValueError(o)


def obs(ev, st):
    return "a=%s:%d b=%s:%d c=%s:%d res=%s" % (
        st["a"]["k"], st["a"]["v"], st["b"]["k"], st["b"]["v"], st["c"]["k"], st["c"]["v"],
        ev["res"] if "res" in ev else "-")


def body(c):
    exe = c.build("either", [vf.VERIF + "/harness/either_driver.cpp"])
    for copyable in ("TRUE", "FALSE"):
        g = c.graph(c.tlc("either/EitherOr", "MC.cfg", consts={"Vals": "{0, 1}", "Copyable": copyable, "Writable": '{"L", "R"}'}, stem="mc" + copyable))
        if c.thorough:
            c.tlc("either/EitherOr", "MCprop.cfg", workers=8, consts={"Vals": "{0, 1}", "Copyable": copyable, "Writable": '{"L", "R"}'}, stem="pr" + copyable)
        walks = g.cover(rng=c.rng)
        n = 400 if c.thorough else 60
        walks += g.random_walks(n, 300, c.rng)
        for kind in (("tracked", "error", "vector", "tagged") if copyable == "TRUE" else ("moveonly", "tracked", "error")):
            c.replay(exe, walks, op, obs, args=[kind], what="either-or container (%s)" % kind)
    c.assumptions += ["the alternatives' own operations do not throw",
                      "type combinations other than the five instantiated behave like them"]
