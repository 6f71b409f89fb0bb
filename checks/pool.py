"""ObjectPool: controlled schedules of concurrent use validated against specs/pool."""
import vf, conc


def body(c):
    c.tlc("pool/Pool", "MC.cfg", workers=4)
    exe = conc.build(c, "pool", [], "pool_driver.cpp", shim="headers")
    progs = ["add:1 clear ; add:2 empty", "add:1 add:2 ; add:3 ; clear", "make:1 make:2 ; throw:5 clear empty", "clear clear empty", "empty", "add:1 ; add:2 ; add:3 ; add:4",
             "add:1 clear add:5 ; clear add:6", "throw:1 ; add:2 clear ; empty", "add:3 empty clear empty ; add:7 add:4"]
    for _ in range(100 if c.thorough else 15):
        n = iter(range(1, 100))
        progs.append(" ; ".join(" ".join(rop(c.rng, n) for _ in range(c.rng.choice([1, 2, 3]))) for _ in range(c.rng.choice([2, 3]))))
    for _ in range(5):
        n = iter(range(1, 1000))
        progs.append(" ".join(rop(c.rng, n) for _ in range(200)))
    conc.explore(c, exe, progs, "pool/PoolTrace", "Trace.cfg", "object pool", dev=3 if c.thorough else 2, runs=30000 if c.thorough else 1500, rnd=3000 if c.thorough else 100)
    c.assumptions += ["object destructors do not use the pool", "memory for the bookkeeping is available"]


def rop(r, n):
    f = r.choice(["add", "add", "make", "make", "throw", "clear", "empty"])
    return f if f in ("clear", "empty") else "%s:%d" % (f, next(n))
