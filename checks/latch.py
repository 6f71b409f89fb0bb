"""Controlled schedules of the real Latch, every distinct call/return history validated
against specs/latch/Latch.tla."""
import vf, conc

FIXED = [
    "0 ; down", "1 ; down", "1099511627776 ; isReady down isReady ; down isReady ; isReady", "4294967296 ; isReady down isReady", "256 ; down isReady", "257 ; down isReady", "65536 ; down isReady",
    "65537 ; down isReady down ; isReady", "4294967297 ; down isReady",
    "1 ; down isReady ; wait isReady", "1 ; wait ; wait ; down", "2 ; downWait ; downWait ; isReady isReady",
    "2 ; down ; down ; wait", "2 ; downWait isReady ; wait ; down", "3 ; downWait ; downWait ; downWait isReady",
    "1 ; down ; down", "1 ; downWait ; downWait", "2 ; down down ; downWait", "3 ; down wait ; downWait ; down wait",
    "2 ; wait down ; wait ; down", "3 ; downWait ; wait ; isReady",
]


def body(c):
    c.tlc("latch/Latch", "MC.cfg", workers=4)
    exe = conc.build(c, "latch", ["common/concurrent/Latch.cpp"], "latch_driver.cpp")
    progs = list(FIXED)
    for _ in range(60 if c.thorough else 10):
        n = c.rng.choice([1, 2, 2, 3, 3, 4])
        th = c.rng.choice([2, 3, 3])
        progs.append("%d ; " % n + " ; ".join(
            " ".join(c.rng.choice(["down", "wait", "downWait", "isReady", "down"]) for _ in range(c.rng.choice([1, 2, 2])))
            for _ in range(th)))
    conc.explore(c, exe, progs, "latch/LatchTrace", "Trace.cfg", "latch",
                 dev=3 if c.thorough else 2, runs=60000 if c.thorough else 2500, rnd=3000 if c.thorough else 150)
    c.assumptions += ["sequentially consistent memory (one thread runs at a time, preempted at every access to the latch)",
                      "schedules within the stated number of preemptions and spurious wake-ups, plus random ones"]
