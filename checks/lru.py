"""ConcurrentLRUCache: every transition of specs/lru/LRU.tla replayed for four type
combinations; controlled schedules of concurrent use validated against LRUTrace."""
import vf, conc


def op(ev):
    return ev["op"] if ev["op"] == "clear" else "%s %d %d %d" % (ev["op"], ev["k"], ev["v"], ev["h"])


def obs(tracked):
    def f(ev, b):
        bs = [b[str(i)] for i in range(len(b))] if isinstance(b, dict) else b
        s = "%s %d %d %d" % (ev["res"], ev["t"], ev["hit"], ev["e"])
        for x in bs:
            s += " " + "".join(map(str, sorted(e[0] for e in x)))
        if tracked:
            s += " %d" % sum(len(x) for x in bs)
        return s
    return f


PROGS = [
    "3 0 ; insert:0:1 get:1 ; insert:1:1 get:0", "2 0 ; insert:0:1 insert:1:1 insert:2:1 ; get:0 get:1 ; evicts",
    "2 0 ; putif:0:1 ; putif:0:2 ; get:0", "2 0 ; putif:0:1 putif:1:1 ; evict:0 evict:1 ; insert:0:2",
    "2 0 ; insert:0:1 get:0 ; clear ; get:0 total", "2 0 ; get:0 get:1 ; get:1 get:0 ; get:2 total hits",
    "4 1 ; insert:0:1 insert:2:1 insert:4:1 ; get:0 contains:2 ; evict:0", "4 1 ; insert:0:1 insert:1:1 ; clear ; get:0 get:1",
    "5 1 ; insert:0:1:1 insert:1:2:1 ; insert:2:1:1 insert:3:1:1 ; get:0:0:1 get:1:0:3", "2 0 ; evict:0 ; insert:0:1 ; evict:0 ; putif:0:2",
    "4 1 ; insert:0:1:0 clear ; clear insert:1:1:1 ; total", "3 0 ; contains:0 contains:1 ; insert:0:1 insert:1:1 ; evict:0",
]


def body(c):
    exe = c.build("lru", [vf.VERIF + "/harness/lru_driver.cpp", "common/base/Status.cpp"], shim=True)
    for cap, exp, keys, vals, hints, kinds in ((3, 0, 4, 2, "{0}", ("int", "tracked", "strings", "strtracked")),
                                               (5, 1, 4, 1, "{0, 1, 8}", ("int", "tracked"))):
        g = c.graph(c.tlc("lru/LRU", "MC.cfg", consts={"Keys": "{%s}" % ", ".join(map(str, range(keys))), "Vals": "{%s}" % ", ".join(map(str, range(vals))), "Capacity": cap, "Exp": exp, "HintsUp": hints}, stem="mc%d" % cap))
        walks = g.cover(rng=c.rng) + g.random_walks(300 if c.thorough else 40, 300, c.rng)
        for kind in kinds:
            c.replay(exe, walks, op, obs("tracked" in kind), args=[kind, str(cap), str(exp)], what="cache (%s)" % kind, reset_obs="{}")
    # other sizes: random walks of bigger models as traces
    hs = []
    drv = conc.build(c, "lruconc", [], "lruconc_driver.cpp", shim="headers", extra=[vf.SRC + "/common/base/Status.cpp"])
    progs = list(PROGS)
    for _ in range(60 if c.thorough else 10):
        cap, exp = c.rng.choice([(2, 0), (3, 0), (3, 1), (4, 1), (5, 1), (9, 2)])
        progs.append("%d %d ; " % (cap, exp) + " ; ".join(" ".join(rop(c, exp) for _ in range(c.rng.choice([1, 2, 3]))) for _ in range(c.rng.choice([2, 3]))))
    # long histories of one thread over bigger caches
    for _ in range(40 if c.thorough else 10):
        cap, exp = c.rng.choice([(2, 0), (7, 1), (6, 2), (23, 4), (17, 4), (11, 3), (4, 1)])
        progs.append("%d %d ; " % (cap, exp) + " ".join(rop(c, exp, 40) for _ in range(300)))
    conc.explore(c, drv, progs, "lru/LRUTrace", "Trace.cfg", "cache under concurrent use", dev=3 if c.thorough else 2,
                 runs=30000 if c.thorough else 1500, rnd=3000 if c.thorough else 100)
    c.assumptions += ["keys are hashed by std::hash, which for integers is the identity", "no key or value operation throws",
                      "a preemption is possible at every lock operation and every access to the cache's own objects (not their heap nodes)"]


def rop(c, exp, n=4):
    r = c.rng
    f = r.choice(["insert", "insert", "putif", "get", "get", "contains", "evict", "clear" if r.random() < 0.1 else "get", r.choice(["total", "hits", "evicts"])])
    return f if f in ("clear", "total", "hits", "evicts") else "%s:%d:%d:%d" % (f, r.randrange(n), r.randrange(9), r.choice([-1, -1, -2, r.randrange(0, 2 << exp)]))
