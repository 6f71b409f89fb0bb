"""NamedThread, nominators and thread ids: random histories validated against specs/threads."""
import vf

NAMES = [b"", b"x", b"worker", b"fifteen-bytes-x", b"sixteen-bytes-xx", b"a much longer name than the kernel keeps", b"with space", b"new\nline",
         b"%s%n", b"14-bytes-name!", b"\xff\xfe\x01", b"worker-1", b"worker-2"]


def op(e):
    return "%s %d x%s" % (e["op"], e.get("t", 0), bytes(e.get("name", [])).hex())


def history(r, n):
    live, t, nxt = [0], [{"op": "start", "name": list(b"starter")}], 1
    for _ in range(n):
        o = r.choice(["spawn", "set", "push", "push", "pop", "pop", "move", "join"])
        if o == "spawn":
            if len(live) > 7:
                continue
            t.append({"op": o, "t": nxt, "name": list(r.choice(NAMES))})
            live.append(nxt)
            nxt += 1
        elif o in ("move", "join"):
            if len(live) > 1:
                x = r.choice(live[1:])
                t.append({"op": o, "t": x})
                if o == "join":
                    live.remove(x)
        else:
            t.append({"op": o, "t": r.choice(live), "name": list(r.choice(NAMES)) if o != "pop" else []})
    return t


def body(c):
    exe = c.build("threads", [vf.VERIF + "/harness/threads_driver.cpp", "common/thread/NamedThread.cpp"])
    hs = [history(c.rng, 60) for _ in range(300 if c.thorough else 50)]
    tr = c.record(exe, hs, op, what="named threads", timeout=60)
    c.validate("threads/ThreadsTrace", "Trace.cfg", tr, what="named threads")
    c.assumptions += ["a process does not fork after it asked for the id of the forking thread", "thread names contain no NUL"]
