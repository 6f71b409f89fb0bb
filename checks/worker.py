"""GenericWorker and GenericThreadPool under controlled schedules and a virtual clock (C21)."""
import conc, vf

SHIM = vf.VERIF + "/shim"
FIXED = [
    "W ; stop wait start start go join stop stop wait wait destroy",
    "W ; start add:1:v add:2:r add:3:x add:4:y add:5:n get:1 get:2 get:3 get:4 get:5 stop wait destroy",
    "W ; start go join stop wait get:1 get:2 get:3 destroy ; add:1:v add:2:r ; add:3:v",
    "W ; start go stop wait join destroy ; add:1:v add:2:v",
    "W ; start rep:1:10:v purge:1 add:2:v sleep:35 stop wait destroy",
    "W ; start rep:1:10:v go sleep:25 join sleep:30 stop wait destroy ; purge:1 add:2:v",
    "W ; start delay:1:0:v delay:2:1500:r delay:3:999:x delay:4:2001:y get:1 get:2 get:3 get:4 stop wait destroy",
    "W ; start rep:1:1001:v rep:2:400:v sleep:3500 purge:2 add:3:r get:3 sleep:1500 stop wait destroy",
    "W ; start add:1:s=add,2,r+add,3,v+rep,4,10,v add:5:s=purge,4+add,6,v get:1 sleep:30 stop wait destroy",
    "W ; start add:1:s=stop add:2:v wait destroy",
    "W ; start go wait join destroy ; add:1:v stop",
    "W ; start add:1:z30 delay:2:10:v rep:3:10:v get:1 sleep:25 destroy get:2",
    "W ; start delay:1:1000:v destroy get:1",
    "W ; destroy",
    "W ; start rep:1:1:v sleep:5 stop wait destroy",
    "P ; stop wait start:2 start:2 go join stop wait get:1 get:2 get:3 get:4 destroy ; add:1:v add:2:r ; add:3:x add:4:y",
    "P ; start:3 add:1:v add:2:r add:3:v add:4:v add:5:r add:6:v get:6 get:5 get:4 stop stop wait destroy",
    "P ; start:2 rep:1:10:v rep:2:10:v rep:3:10:v sleep:15 purge:1 add:4:v add:5:v get:4 get:5 sleep:20 purge:2 sleep:20 stop wait destroy",
    "P ; start:2 add:1:v stop wait start:3 add:2:v add:3:v add:4:r get:4 destroy",
    "P ; start:1 delay:1:5:r rep:2:7:v get:1 destroy",
    "P ; start:3 delay:1:5:r delay:2:3:x delay:3:9:v delay:4:1:y get:1 get:2 get:3 get:4 stop wait destroy",
    "P ; destroy",
]


def program(r):
    p = r.random() < .45
    k = [0]

    def new():
        k[0] += 1
        return k[0]

    def adds(n, reps):
        out = []
        for _ in range(n):
            x = r.random()
            if x < .6: out.append("add:%d:%s" % (new(), r.choice("vvrrxyn")))
            elif x < .8: out.append("delay:%d:%d:%s" % (new(), r.choice([0, 1, 3, 5, 10, 1000, 1500]), r.choice("vrxyn")))
            else:
                q = new()
                reps.append(q)
                out.append("rep:%d:%d:v" % (q, r.choice([1, 3, 5, 10, 1001])))
                if r.random() < .5: out.append("purge:%d" % q); reps.remove(q)
        return out
    reps = []
    main = ["start:%d" % r.choice([1, 2, 2, 3]) if p else "start"] + adds(r.randrange(0, 3), reps)
    others = [adds(r.randrange(1, 3), []) for _ in range(r.choice([0, 1, 1, 2]))]
    main.append("go")
    if r.random() < .5: main.append("add:%d:%s" % (new(), r.choice(["z5", "z20", "v"])))
    if r.random() < .4: main.append("sleep:%d" % r.choice([1, 4, 12, 30]))
    for q in reps:
        if r.random() < .6: main.append("purge:%d" % q)
    if r.random() < .5: main.append("add:%d:v" % new())
    if r.random() < .4: main.append("sleep:%d" % r.choice([4, 12]))
    if r.random() < .4 and not p: main += ["stop", "wait", "join"]
    else: main += ["join"] + r.choice([["stop", "wait"], [], ["stop"]])
    main.append("destroy")
    return ("P" if p else "W") + " ; " + " ; ".join(" ".join(x) for x in [main] + others)


def body(c):
    c.tlc("worker/Worker", "MC.cfg", workers=6)
    exe = conc.build(c, "worker", ["common/thread/GenericWorker.cpp", "common/thread/GenericThreadPool.cpp"], "worker_driver.cpp", shim="headers",
                     flags=["-DVF_FUTURES"], extra=[vf.VERIF + "/harness/evfake.cpp", "common/thread/NamedThread.cpp"],
                     libs=("-lglog", "-lgflags", "-lpthread", "-ldl", "-Wl,--wrap=write"))
    progs = FIXED + [program(c.rng) for _ in range(200 if c.thorough else 30)]
    conc.explore(c, exe, progs, "worker/WorkerTrace", "Trace.cfg", "worker", dev=2, runs=6000 if c.thorough else 1000, rnd=1500 if c.thorough else 150)
