"""Controlled schedules of the real Barrier, every distinct history of calls, completion
callbacks and returns validated against specs/barrier/Barrier.tla."""
import conc

FIXED = ["0 1 ; 1", "0 0 ; 1", "1 1 ; 3", "1 0 ; 2 ; 2", "4294967296 0 ; 1", "2 1 ; 1 ; 1", "2 1 ; 3 ; 3", "2 0 ; 3 ; 3", "2 1 ; 2 ; 2 ; 2",
         "2 1 ; 1 ; 1 ; 1 ; 1", "3 1 ; 2 ; 2 ; 2", "3 0 ; 2 ; 2 ; 2", "3 1 ; 1 ; 1", "2 1 ; 2 ; 1", "3 1 ; 1 ; 1 ; 1 ; 1", "2 0 ; 1 ; 1 ; 1"]


def body(c):
    c.tlc("barrier/Barrier", "MC.cfg", workers=6)
    exe = conc.build(c, "barrier", ["common/concurrent/Barrier.cpp"], "barrier_driver.cpp")
    progs = list(FIXED)
    for _ in range(40 if c.thorough else 5):
        n = c.rng.choice([1, 2, 2, 3, 3, 4])
        th = c.rng.choice([2, 3, 4])
        progs.append("%d %d ; " % (n, c.rng.randrange(2)) + " ; ".join(str(c.rng.choice([1, 2, 2, 3])) for _ in range(th)))
    conc.explore(c, exe, progs, "barrier/BarrierTrace", "Trace.cfg", "barrier",
                 dev=3 if c.thorough else 2, runs=60000 if c.thorough else 2500, rnd=3000 if c.thorough else 150)
    # a released waiter is kept from running for hundreds of generations
    conc.explore(c, exe, ["2 0 ; 256 ; 255 ; 1", "2 1 ; 1 ; 255 ; 256"], "barrier/BarrierTrace", "Trace.cfg", "barrier",
                 runs=0, rnd=300 if c.thorough else 30)
    c.assumptions += ["sequentially consistent memory (one thread runs at a time, preempted at every access to the barrier)",
                      "schedules within the stated number of preemptions and spurious wake-ups, plus random ones",
                      "the completion callback does not throw and does not use the barrier"]
