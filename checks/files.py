"""File utilities and temporary files: random histories over a scratch tree, run as an
unprivileged user, validated against specs/files."""
import os, shutil, tempfile
import vf

NAMES = [b"a", b"b", b"c", b".h", b"a b", b"ab", b"new\nline", b"-rf", b"*", b"x.txt"]


def hx(b):
    return "x" + bytes(b).hex()


def path(p):
    return "/".join(hx(n) for n in p) if p else "."


def op(e):
    o, p = e["op"], None
    if o in ("dirname", "basename", "divide"):
        return "%s %s" % (o, hx(e["s"]))
    if o == "join":
        return "join %s %s" % (hx(e["s"]), hx(e["f"]))
    if o == "space":
        return "space %d %d %d" % (e["bfree"], e["bavail"], e["bsize"])
    if o == "drop":
        return "drop %d" % e["i"]
    s = "%s %s %s" % (o, e["sp"], path(e["p"]))
    return s + {"mkfile": lambda: " " + hx(e["c"]), "mklink": lambda: " " + path(e["to"]), "makedir": lambda: " %d" % e["m"],
                "remove": lambda: " %d" % e["rec"], "rename": lambda: " " + path(e["q"]), "mtime": lambda: " %d" % e["t"],
                "list": lambda: " %s %s %d" % (e["k"], hx(e["pat"]), e["full"]), "iter": lambda: " " + hx(e["piece"]),
                "tempfile": lambda: " %d %d %d" % (e["i"], e["del"], e["good"]),
                "tempdir": lambda: " %d %d %d" % (e["i"], e["del"], e["good"])}.get(o, lambda: "")()


class Gen:
    """Histories that keep a rough idea of what exists, so that most operations hit something."""

    def __init__(self, rng, names, depth):
        self.r, self.names, self.depth, self.seen, self.n = rng, names, depth, [[]], 0
        self.live = []

    def path(self, up=True):
        r = self.r
        if r.random() < 0.6 and len(self.seen) > 1:
            return list(r.choice(self.seen[1:]))
        base = list(r.choice(self.seen)) if r.random() < 0.8 else []
        return (base + [list(r.choice(self.names)) for _ in range(r.choice([1, 1, 1, 2]))])[: self.depth]

    def note(self, p):
        if p not in self.seen:
            self.seen.append(p)

    def event(self, kinds):
        r = self.r
        o = r.choice(kinds)
        e = {"op": o, "sp": r.choice(["rel", "dot", "abs"])}
        if o == "drop":
            e = {"op": o, "i": r.choice(self.live) if self.live and r.random() < 0.9 else 99}
            if e["i"] in self.live:
                self.live.remove(e["i"])
            return e
        e["p"] = self.path()
        if o in ("type", "exist", "list", "realpath") and r.random() < 0.1:
            e["p"] = []
        if o in ("mkfile", "makedir", "mklink", "mkfifo", "swap"):
            self.note(e["p"])
        if o == "mkfile":
            e["c"] = list(b"".join(r.choice([b"a", b"bc", b"\n", b"\n\n", b"x", b"aa"]) for _ in range(r.choice([0, 1, 3, 8]))))
        elif o == "mklink":
            e["to"] = self.path() if r.random() < 0.95 else [list(b"n" * 250) for _ in range(r.choice([4, 8, 14]))]
        elif o == "makedir":
            e["m"] = r.choice([509, 509, 493, 448, 511])
            if r.random() < 0.2:
                e["sp"] = "slash"
        elif o == "remove":
            e["rec"] = r.random() < 0.6
        elif o == "rename":
            e["q"] = self.path()
            self.note(e["q"])
        elif o == "mtime":
            e["t"] = r.choice([0, 1, 1234567890, 2147483647])
        elif o == "list":
            e["k"] = r.choice(["file", "dir", "link", "fifo"])
            e["pat"] = list(r.choice([b"", b"", b"*", b"a*", b"?", b"*b", b".*", b"a?b", b"??", b"?h", b"*h", b"?*", b"*a*", b".?", b"*.txt", b"*e*"]))
            e["full"] = r.random() < 0.5
        elif o == "iter":
            e["piece"] = list(r.choice([b"", b"", b"a", b"b", b"aa"]))
        elif o in ("tempfile", "tempdir"):
            self.n += 1
            e.update(i=self.n, good=r.random() < 0.9)
            e["del"] = r.random() < 0.7
            self.live.append(self.n)
        return e


def text(rng):
    out = []
    for _ in range(400):
        o = rng.choice(["dirname", "basename", "join", "divide"])
        def s(double):
            t = b"".join(rng.choice([b"/", b"/", b"a", b"bc", b".", b"..", b"\n", b" x"]) for _ in range(rng.choice([1, 2, 3, 5, 9])))
            while not double and b"//" in t:
                t = t.replace(b"//", b"/")
            return list(t)
        e = {"op": o, "s": s(o == "join")}
        if o == "join":
            e["f"] = [c for c in s(True)]
            if rng.random() < 0.2:
                e["s"] = []
        elif o == "divide" and rng.random() < 0.1:
            e["s"] = rng.choice([[], [47]])
        out.append(e)
    for a, b, c in ((1, 2, 4096), (2000000000, 1000000000, 4096), (100, 7, 512), (0, 0, 4096), (2 ** 31 - 1, 2 ** 31 - 2, 65536)):
        out.append({"op": "space", "bfree": a, "bavail": b, "bsize": c})
    return out


ALL = ["mkfile", "mkfile", "mklink", "mklink", "mkfifo", "makedir", "makedir", "makedir", "remove", "remove", "rename", "type", "exist", "size",
       "mtime", "readlink", "realpath", "list", "list", "iter", "tempdir", "tempdir", "tempfile", "drop", "drop", "swap"]
TMP = ["tempfile", "tempfile", "tempfile", "drop", "drop", "mkfile", "makedir", "remove", "rename", "swap", "mklink", "tempdir"]


def go(c, kinds, count, length, what, texts):
    exe = c.build("files", [vf.VERIF + "/harness/files_driver.cpp", "common/fs/FileUtils.cpp", "common/fs/TempFile.cpp", "common/fs/TempDir.cpp",
                            "common/base/Status.cpp"], shim=True, libs=("-lglog", "-lgflags", "-lpthread", "-ldl"))
    for mode in ("typed", "untyped"):
        hs = []
        for i in range(count):
            g = Gen(c.rng, NAMES[:3] if i % 2 else NAMES, c.rng.choice([2, 3, 4]))
            hs.append([g.event(kinds) for _ in range(length)])
        for i in range(count // 4 if texts else 0):
            # full directories
            g = Gen(c.rng, [b".h", b".a", b"ha", b"h", b"a.h", b"..x", b"ab"], 2)
            hs.append([g.event(["mkfile", "mkfile", "makedir", "mklink", "mkfifo"]) for _ in range(20)] + [g.event(["list", "list", "list", "iter"]) for _ in range(30)])
        if texts:
            hs += [text(c.rng)]
        d = tempfile.mkdtemp(prefix="vffiles", dir="/tmp")
        try:
            os.chmod(d, 0o700)
            os.chown(d, 65534, 65534)
            os.chmod(c.dir, 0o755)
            tr = c.record(exe, hs, op, args=[d, mode], what=what)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        c.validate("files/FilesTrace", "Trace.cfg", tr, what=what, timeout=600)


def utils(c):
    c.tlc("files/FilesMC", "MC.cfg", workers=8)
    go(c, ALL, 600 if c.thorough else 60, 60, "file utilities", True)
    c.assumptions += ["nothing else changes the tree during an operation", "names are looked up below one directory an ordinary user owns",
                      "paths have no doubled slashes (except when joined)"]


def temps(c):
    c.tlc("files/FilesMC", "MC.cfg", workers=8)
    go(c, TMP, 600 if c.thorough else 80, 40, "temporary files", False)
    c.assumptions += ["nothing else changes the tree during an operation"]
