"""Status: random histories validated against specs/status; StatusOr: every transition of
specs/either (L a status, R a value) and long random walks replayed."""
import vf
from eitheror import op as eop, obs as eobs

CODES = ["Inserted", "Error", "NoSuchFile", "NotSupported", "SyntaxError", "SemanticError", "StatementEmpty", "KeyNotFound", "PartialSuccess",
         "SpaceNotFound", "HostNotFound", "TagNotFound", "EdgeNotFound", "UserNotFound", "IndexNotFound", "GroupNotFound", "ZoneNotFound",
         "LeaderChanged", "Balanced", "PartNotFound", "ListenerNotFound", "PermissionError"]
MSGS = [b"", b"m", b"no such thing", b"50%d done %s %n", b"nul\0inside", b"ListenerNotFound: x", bytes(range(1, 256)), b"abcdefgh"]


def op(e):
    if e["op"] == "make":
        return "make %s %s %s x%s %d" % (e["x"], e["c"], e["how"], e["raw"], e["rep"])
    if e["op"] == "ok":
        return "ok %s %d" % (e["x"], e["k"])
    return "%s %s %s %s" % (e["op"], e["x"], e["y"], e.get("how", ""))


def history(rng, n):
    t = []
    for _ in range(n):
        k, x, y = rng.random(), rng.choice("ab"), rng.choice("ab")
        if k < 0.5:
            how = rng.choice(["none", "str", "piece", "lit", "one", "fmt"])
            m = rng.choice(MSGS)
            if how == "lit":
                m = m.replace(b"%", b"")
            if how in ("lit", "one", "fmt"):
                m = m.replace(b"\0", b"")
            rep = 2 ** (rng.choice([0, 0, 0, 1, 4, 5, 6, 10, 13, 14]) if len(m) == 8 else rng.choice([0, 0, 1, 3, 8]))
            t.append({"op": "make", "x": x, "c": rng.choice(CODES), "how": how, "raw": m.hex(), "rep": rep})
        elif k < 0.55:
            t.append({"op": "ok", "x": x, "k": rng.randrange(2)})
        elif k < 0.7:
            t.append({"op": "copy", "x": x, "y": y, "how": rng.choice(["assign", "from", "ctor"])})
        elif k < 0.85:
            # moving through a third object onto itself is a plain move and back
            t.append({"op": "move", "x": x, "y": y, "how": "assign" if x == y else rng.choice(["assign", "ctor"])})
        else:
            t.append({"op": "through", "x": x, "y": y})
    return t


def body(c):
    exe = c.build("status", [vf.VERIF + "/harness/status_driver.cpp", "common/base/Status.cpp"], shim=True)
    hs = [history(c.rng, 60) for _ in range(400 if c.thorough else 40)]
    hs += [[{"op": "make", "x": "a", "c": k, "how": h, "raw": b"text".hex(), "rep": 1} for k in CODES] for h in ("none", "str", "piece", "lit", "one", "fmt")]
    hs += [[{"op": "make", "x": x, "c": k, "how": "str", "raw": b"m".hex(), "rep": 1} for k in CODES for x, k in (("a", k), ("b", j))] for j in CODES[::5]]
    tr = c.record(exe, hs, op, args=["status"], what="status")
    c.validate("status/StatusTrace", "Trace.cfg", tr, what="status")
    for copyable in ("TRUE", "FALSE"):
        g = c.graph(c.tlc("either/EitherOr", "MC.cfg", consts={"Vals": "{0, 1}", "Copyable": copyable, "Writable": '{"R"}'}, stem="mc" + copyable))
        walks = g.cover(rng=c.rng) + g.random_walks(400 if c.thorough else 60, 300, c.rng)
        for kind in (("tracked", "string") if copyable == "TRUE" else ("moveonly", "tracked", "string")):
            c.replay(exe, walks, eop, eobs, args=[kind], what="StatusOr (%s)" % kind)
    c.assumptions += ["the value's own operations do not throw", "value types other than the three instantiated behave like them",
                      "a message given as a C string without arguments is a format (as its overloads say)"]
