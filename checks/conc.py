"""Shared by the concurrency checks: build with scheduling points at every access to the
watched object, explore schedules, validate all distinct recorded traces with TLC."""
import concurrent.futures, json, os, time
import vf


def build(c, name, sources, driver, shim=False, flags=(), libs=("-lglog", "-lgflags", "-lpthread", "-ldl"), extra=()):
    drv = vf.VERIF + "/harness/" + driver
    sch = vf.VERIF + "/harness/vsched.cpp"
    per = {s: ["-fsanitize=thread"] for s in sources}
    per[drv] = ["-fsanitize=thread"] if shim == "headers" else []
    return c.build(name, list(sources) + [drv, sch] + list(extra), shim=bool(shim), flags=flags, libs=libs, san=(), perfile=per)


def explore(c, exe, progs, spec, cfg, what, dev=2, runs=4000, rnd=300, consts=None, jobs=8, batch=4000, timeout=240, cap=None,
            chunk=1200):
    """Each program is one line to the driver, explored in parallel processes."""
    args = [str(dev), str(runs), str(rnd), str(c.seed)]

    def one(p):
        out, crash = c.drive(exe, [p], timeout, args)
        return p, out, crash
    traces, seen, owner = [], set(), []
    runs_total = pts = exh = 0
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for p, out, crash in ex.map(one, progs):
            if crash:
                # the code under test crashed (or hung) in a schedule: once more to be sure
                out2, crash2 = c.drive(exe, [p], timeout, args)
                if crash2:
                    raise vf.Violation("%s: program <%s>: %s" % (what, p, crash2),
                                       {"kind": "schedules", "driver": os.path.basename(exe), "args": args, "program": p, "why": crash2})
            for l in out:
                if l.startswith("#"):
                    st = json.loads(l[1:])
                    runs_total += st["runs"]
                    exh += st["exhausted"]
                    pts = max(pts, st["points"])
                elif l not in seen:
                    seen.add(l)
                    traces.append(json.loads(l))
                    owner.append(p)
    c.extra["schedules_executed"] = c.extra.get("schedules_executed", 0) + runs_total
    c.extra["programs"] = c.extra.get("programs", 0) + len(progs)
    c.extra["programs_exhausted_within_budget"] = c.extra.get("programs_exhausted_within_budget", 0) + exh
    c.extra["max_scheduling_points"] = max(pts, c.extra.get("max_scheduling_points", 0))
    c.extra["distinct_histories"] = c.extra.get("distinct_histories", 0) + len(traces)
    if cap and len(traces) > cap:
        idx = list(range(len(traces)))
        c.rng.shuffle(idx)
        traces = [traces[i] for i in sorted(idx[:cap])]
    for i in range(0, len(traces), batch):
        c.validate(spec, cfg, traces[i:i + batch], what=what, timeout=600, consts=consts)
    return traces
