"""Replays specs/response into the graph response records; the printed error codes are
validated against the interface definition."""
import re
import vf

DATATYPES = ["common/datatypes/%s.cpp" % n for n in ("Value", "Date", "Edge", "HostAddr", "List", "Map", "Path", "Set", "Vertex")]
ORDER = {"AuthResponse": ["errorCode", "sessionId", "errorMsg", "timeZoneOffsetSeconds", "timeZoneName"],
         "ProfilingStats": ["rows", "execDurationInUs", "totalDurationInUs", "otherStats"], "PlanNodeBranchInfo": ["isDoBranch", "conditionNodeId"],
         "Pair": ["key", "value"], "PlanNodeDescription": ["name", "id", "outputVar", "description", "profiles", "branchInfo", "dependencies"],
         "PlanDescription": ["planNodeDescs", "nodeIndexMap", "format", "optimize_time_in_us"],
         "ExecutionResponse": ["errorCode", "latencyInUs", "data", "spaceName", "errorMsg", "planDesc", "comment"]}


def op(ev):
    if ev["op"] == "set":
        return "set %s %s %d" % (ev["o"], ev["f"], ev["v"])
    return "clear %s %d" % (ev["o"], 0 if ev["o"] == "x" else 1)


def dump(r):
    return " ".join("%s=%d" % (f, r["v"][f]) for f in ORDER[r["t"]])


def obs(ev, st):
    eq = "equal" if st["x"]["v"] == st["y"]["v"] else "different"
    return "%s|%s|%s %s" % (dump(st["x"]), dump(st["y"]), eq, eq)


def body(c):
    exe = c.build("response", [vf.VERIF + "/harness/response_driver.cpp", "common/graph/Response.cpp"] + DATATYPES, shim=True, san=("undefined",), opt="-O0",
                  libs=("-lglog", "-lgflags", "-lpthread"))
    lines = c.tlc("response/ResponseMC", "MC.cfg", workers=1)
    graphs = {}
    for a, ev, b in c.emitted(lines):
        graphs.setdefault(a["x"]["t"], []).append((a, ev, b))
    for t, edges in sorted(graphs.items()):
        g = vf.Graph()
        edges.sort(key=lambda e: any(e[0]["x"]["v"].values()) + any(e[0]["y"]["v"].values()))
        for e in edges:
            g.add(*e)
        walks = g.cover() + g.random_walks(10, 200, c.rng)
        fresh = dump({"t": t, "v": dict.fromkeys(ORDER[t], 0)})
        c.replay(exe, walks, op, obs, args=[t], what=t, reset_obs="%s|%s" % (fresh, fresh))
    s = open(vf.SRC + "/common/interface/common.thrift").read()
    i = s.index("enum ErrorCode")
    idl = {a: int(b) for a, b in re.findall(r"^\s*(\w+)\s*=\s*(-?\d+)", s[i:s.index("}", i)], re.M)}
    out, crash = c.drive(exe, [], args=["codes"])
    if crash:
        raise vf.Violation("error codes: " + crash, {"why": crash})
    import json
    tr = [dict(json.loads(l), op="code", idl=idl) for l in out]
    c.validate("response/CodesTrace", "Codes.cfg", [tr], what="error codes")
    c.expect(len(tr) == len(idl), "error codes of the interface definition missing from graph/Response.h", {"idl": len(idl), "code": len(tr)})
