"""Common machinery of the checks: build the code under test from /repo's working
tree, run TLC on a specification, walk the labelled state graph TLC emits, replay
the walks into the real code, validate recorded traces with TLC, write evidence."""
import collections, concurrent.futures, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VF_OUT", VERIF)      # where a run writes: elsewhere for runs side by side
REPO = os.environ.get("VF_REPO", "/repo")
SRC = REPO + "/src"
TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def run(cmd, timeout=600, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.PIPE)
    try:
        p = subprocess.run(cmd, timeout=timeout, **kw)
        return p.returncode, p.stdout or b"", p.stderr or b""
    except subprocess.TimeoutExpired as e:
        return "timeout", e.stdout or b"", e.stderr or b""


class Check:
    def __init__(self, prop, level="model_checking", tier=None):
        self.prop, self.level = prop, level
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, prop)))
        self.t0 = time.time()
        self.dir = os.path.join(OUT, "build", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.traces = self.ops = 0
        self.samples, self.notes, self.assumptions = [], [], []
        self.per_action = collections.Counter()
        self.extra = {}
        self.known = load_known(prop)
        self.known_hit = set()
        self._base = None

    # ---------------------------------------------------------------- build
    def base_flags(self, shim):
        """shim=False: as the repository's own build does it (Base.h replaced by its
        non-folly includes); shim=True: real Base.h over the stand-in folly headers."""
        if shim:
            return ["-I" + VERIF + "/shim", "-I" + VERIF + "/harness", "-I" + SRC]
        f = os.path.join(self.dir, "base_includes.h")
        if not os.path.exists(f):
            with open(SRC + "/common/base/Base.h") as i, open(f, "w") as o:
                for line in i:
                    if re.match(r"\s*#\s*include", line) and not re.search(r'[<"]folly/', line):
                        o.write(line)
        return ["-I" + VERIF + "/harness", "-I" + SRC, "-DCOMMON_BASE_BASE_H_", "-include", f]

    def build(self, name, sources, shim=False, flags=(), libs=("-lglog", "-lgflags", "-lpthread"),
              san=("address", "undefined"), opt="-O1", cxx="g++", perfile=None, deps=()):
        """Compile sources (absolute, or relative to /repo/src) and link. Returns exe."""
        d = os.path.join(self.dir, "obj_" + name)
        os.makedirs(d, exist_ok=True)
        cf = ["-std=c++17", "-g", opt, "-fno-strict-aliasing", "-w", "-DNEBULA_HOME=/repo"] + list(flags)
        sf = []
        if san:
            sf = ["-fsanitize=" + ",".join(san), "-fno-sanitize-recover=all"]
            if "undefined" in san:
                # libstdc++/vptr checks need RTTI of types the harness never links
                sf += ["-fno-sanitize=vptr"]
        objs, jobs = [], []
        for s in sources:
            path = s if s.startswith("/") else os.path.join(SRC, s)
            o = os.path.join(d, path.strip("/").replace("/", "_") + ".o")
            extra = list((perfile or {}).get(s, []))
            usesan = sf if "-DVF_NOSAN" not in extra else []
            jobs.append((path, o, [cxx] + cf + usesan + extra))
            objs.append(o)

        def comp(job):
            path, o, cmd = job
            rc, out, err = run(cmd + self.base_flags(shim) + ["-c", path, "-o", o], 800)
            if rc != 0 and not shim and b"folly" in err:
                # the file now needs folly: fall back to the stand-in headers
                rc, out, err = run(cmd + self.base_flags(True) + ["-c", path, "-o", o], 800)
            return rc, path, err

        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for rc, path, err in ex.map(comp, jobs):
                if rc != 0:
                    raise CheckError("cannot compile %s:\n%s" % (path, err.decode("utf8", "replace")[:6000]))
        exe = os.path.join(self.dir, name)
        rc, out, err = run([cxx] + sf + ["-g", "-o", exe] + objs + list(libs), 300)
        if rc != 0:
            raise CheckError("cannot link %s:\n%s" % (name, err.decode("utf8", "replace")[:6000]))
        return exe

    # ---------------------------------------------------------------- TLC
    def tlc(self, spec, cfg, workers=1, timeout=600, extra=(), xmx="6g", stem=None, consts=None, env=None,
            expect_ok=True, jopts=()):
        """Run TLC on /verif/specs/<spec>.tla with configuration cfg (a file name next
        to it). Returns the output lines. A model failure is an error of the check."""
        sdir = os.path.join(VERIF, "specs", os.path.dirname(spec))
        mod = os.path.basename(spec)
        meta = os.path.join(self.dir, "tlc_" + (stem or cfg.replace(".cfg", "").replace("/", "_")))
        shutil.rmtree(meta, ignore_errors=True)
        os.makedirs(meta)
        cfgp = os.path.join(sdir, cfg)
        if consts is not None:
            txt = open(cfgp).read() + "\n" + "\n".join("CONSTANT %s = %s" % kv for kv in consts.items()) + "\n"
            cfgp = os.path.join(meta, "MC.cfg")
            open(cfgp, "w").write(txt)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss16m"] + list(jopts) + [
               "-Djava.io.tmpdir=" + meta, "-DTLA-Library=" + os.pathsep.join(os.path.join(VERIF, "specs", d) for d in ("lib", "value", "expr")),
               "-cp", TLC_CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
               "-config", cfgp, mod + ".tla"] + list(extra)
        e = dict(os.environ)
        e.update(env or {})
        outp = os.path.join(meta, "out.txt")
        with open(outp, "wb") as o:
            rc, _, _ = run(cmd, timeout, cwd=sdir, stdout=o, stderr=subprocess.STDOUT, env=e)
        lines = open(outp, "r", errors="replace").read().split("\n")
        txt = [l for l in lines if not re.match(r'"@|Parsing file|Semantic processing|$', l)]
        if rc == "timeout":
            raise CheckError("TLC timed out on " + spec)
        m = None
        for l in txt:
            m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", l) or m
        if m:
            self.transitions += int(m.group(1).replace(",", ""))
            self.states += int(m.group(2).replace(",", ""))
        if expect_ok and (rc != 0 or not any("No error has been found" in l for l in txt)):
            raise CheckError("TLC failed on %s %s:\n%s" % (spec, cfg, "\n".join(txt)[-4000:]))
        self.last_tlc_rc = rc
        self.last_tlc_gen = int(m.group(1).replace(",", "")) if m else 0
        self.last_tlc_distinct = int(m.group(2).replace(",", "")) if m else 0
        return lines

    @staticmethod
    def emitted(lines, tag="@T "):
        pre = '"' + tag
        out = []
        for l in lines:
            if l.startswith(pre):
                out.append(json.loads(json.loads(l)[len(tag):]))
        return out

    # ---------------------------------------------------------------- graph
    def graph(self, lines, tag="@T "):
        g = Graph()
        for a, ev, b in self.emitted(lines, tag):
            g.add(a, ev, b)
        return g

    # ---------------------------------------------------------------- replay
    def drive(self, exe, script, timeout=120, args=(), env=None):
        """Feed a script (list of lines) to a driver; it prints one line per script
        line. Returns (list of output lines, crash description or None)."""
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=0"
        e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:print_stacktrace=0"
        e["GLOG_logtostderr"] = "1"
        e["GLOG_minloglevel"] = "2"
        e.update(env or {})
        inp = ("\n".join(script) + "\n").encode()
        rc, out, err = run([exe] + list(args), timeout, input=inp, cwd=self.dir, env=e)
        lines = out.decode("utf8", "replace").split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        crash = None
        if rc != 0:
            tail = err.decode("utf8", "replace")
            m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|Check failed[^\n]*|terminate called[^\n]*)", tail)
            crash = "driver ended with %s %s" % (rc, (m.group(1) if m else tail[-600:]).strip())
        return lines, crash

    def replay(self, exe, walks, fmt_op, fmt_obs, timeout=120, args=(), what="", env=None, reset="reset", reset_obs=None):
        """walks: list of [(ev, state_after)], replayed from a reset each; the driver's
        line after each op has to equal fmt_obs(ev, state_after)."""
        script, expect, loc = [], [], []
        for wi, w in enumerate(walks):
            script.append(reset)
            expect.append(reset_obs)
            loc.append((wi, -1))
            for i, (ev, st) in enumerate(w):
                script.append(fmt_op(ev))
                expect.append(fmt_obs(ev, st))
                loc.append((wi, i))
        bad = self._cmp(exe, script, expect, timeout, args, env)
        self.traces += len(walks)
        self.ops += len(script) - len(walks)
        for w in walks:
            for ev, _ in w:
                self.per_action[ev["op"]] += 1
        if len(self.samples) < 3 and walks:
            w = walks[len(walks) // 2]
            self.samples.append({"replayed": [fmt_op(ev) for ev, _ in w[:12]],
                                 "expected_last": fmt_obs(*w[min(11, len(w) - 1)]) if w else ""})
        if bad is None:
            return
        # confirm, first on the failing walk alone and then on the whole script
        k, got, why = bad
        wi, i = loc[min(k, len(loc) - 1)]
        w = walks[wi][: i + 1]
        sub = [reset] + [fmt_op(ev) for ev, _ in w]
        exp = [reset_obs] + [fmt_obs(ev, st) for ev, st in w]
        b2 = self._cmp(exe, sub, exp, timeout, args, env)
        if b2 is None:
            sub, exp = script[: k + 1], expect[: k + 1]
            b2 = self._cmp(exe, sub, exp, timeout, args, env)
        if b2 is None:
            raise CheckError("%s: a mismatch did not repeat: %s" % (what, why))
        k2, got2, why2 = b2
        raise Violation("%s: after %r: %s" % (what, sub[max(0, k2 - 8): k2 + 1], why2),
                        {"kind": "replay", "driver": os.path.basename(exe), "args": list(args), "script": sub,
                         "at": k2, "observed": got2, "specified": exp[k2] if k2 < len(exp) else None, "why": why2})

    def _cmp(self, exe, script, expect, timeout, args, env):
        out, crash = self.drive(exe, script, timeout, args, env)
        for k, e in enumerate(expect):
            if k >= len(out):
                return k, None, crash or "the driver stopped early"
            if e is not None and out[k] != e:
                return k, out[k], "code shows <%s>, the specification requires <%s>" % (out[k], e)
        if crash:
            return len(expect) - 1, None, crash
        return None

    # ---------------------------------------------------------------- traces
    def validate(self, spec, cfg, traces, what="", timeout=300, consts=None, confirm=None, xmx="6g", encode=None):
        """traces: list of lists of event records, one recorded behaviour of the code
        each. One TLC run decides, per trace, whether the trace specification has a
        behaviour that explains all of it (register of the furthest line reached)."""
        if not traces:
            return
        bad = self._validate(spec, cfg, traces, timeout, consts, xmx)
        self.traces += len(traces)
        self.ops += sum(map(len, traces))
        for t in traces:
            for ev in t:
                self.per_action[ev.get("op", "?")] += 1
        if len(self.samples) < 4:
            self.samples.append({"trace": traces[len(traces) // 2][:14]})
        if not bad:
            return
        ti, reached = bad[0]
        again = self._validate(spec, cfg, [traces[ti]], timeout, consts, xmx)
        if not again:
            raise CheckError("%s: a rejection did not repeat" % what)
        t = traces[ti]
        r = again[0][1]
        raise Violation("%s: recorded trace %d is no behaviour of the specification: %d of %d events explained, "
                        "first unexplained %s" % (what, ti, r, len(t), json.dumps(t[r] if r < len(t) else None)),
                        {"kind": "trace", "spec": spec, "cfg": cfg, "trace": t, "explained": r})

    def validate_parallel(self, spec, cfg, traces, what="", timeout=600, consts=None, xmx="3g", show=lambda e: e, known=None, procs=7):
        """As validate, spread over several TLC processes. known(e) names the listed
        finding an unexplained event belongs to, or None; such events are set aside."""
        k = max(1, min(procs, (sum(map(len, traces)) + 1999) // 2000))
        parts = [traces[i::k] for i in range(k)]
        with concurrent.futures.ThreadPoolExecutor(k) as ex:
            res = list(ex.map(lambda p: self._validate(spec, cfg, p, timeout, consts, xmx), parts))
        self.traces += len(traces)
        self.ops += sum(map(len, traces))
        for t in traces:
            for ev in t:
                self.per_action[ev.get("op", "?")] += 1
        bad = [(parts[j][i], r) for j in range(k) for i, r in res[j]]
        if os.environ.get("VF_ALL"):
            for t, r in bad: print("UNEXPLAINED", json.dumps(show(t[r])))
        rounds = 0
        while bad:
            rest = []
            for t, r in bad:
                key = known(t[r]) if known else None
                if key is not None and key in self.known:
                    self.known_hit.add(key)
                    if t[r + 1:]:
                        rest.append(t[r + 1:])
                    continue
                again = self._validate(spec, cfg, [t[:r + 1]], timeout, consts, xmx)
                if not again:
                    raise CheckError("%s: a rejection did not repeat" % what)
                raise Violation("%s: not what the specification gives: %s" % (what, json.dumps(show(t[r]))),
                                {"kind": "trace", "spec": spec, "cfg": cfg, "trace": [show(e) for e in t[:r + 1]], "explained": r})
            rounds += 1
            if rounds > 60:
                raise CheckError("%s: too many known findings in one trace" % what)
            bad = [(rest[i], r) for i, r in self._validate(spec, cfg, rest, timeout, consts, xmx)] if rest else []

    def _validate(self, spec, cfg, traces, timeout, consts, xmx):
        f = os.path.join(self.dir, "traces_%d_%d.ndjson" % (int(time.time() * 1e6), id(traces)))
        with open(f, "w") as o:
            for t in traces:
                o.write(json.dumps({"t": t}) + "\n")
        c = dict(consts or {})
        lines = self.tlc(spec, cfg, workers=1, timeout=timeout, consts=c, env={"VF_TRACES": f}, xmx=xmx,
                         stem="val_%s_%d_%d" % (os.path.basename(spec), int(time.time() * 1e6), id(traces)))
        res = self.emitted(lines, "@R ")
        if len(res) != 1 or len(res[0]) != len(traces):
            raise CheckError("trace validation of %s gave no verdict: %s" % (spec, str(res)[:300]))
        return [(i, r) for i, r in enumerate(res[0]) if r < len(traces[i])]

    def record(self, exe, evs, fmt_op, timeout=120, args=(), what="", env=None, reset="reset"):
        """evs: list of lists of event records (the inputs). The driver is fed fmt_op of
        each and answers with one JSON object per line; returns the events merged with
        the answers, one trace per list. A crash of the driver is a violation."""
        script, loc = [], []
        for t in evs:
            if reset is not None:
                script.append(reset)
                loc.append(None)
            for e in t:
                script.append(fmt_op(e))
                loc.append(e)
        out, crash = self.drive(exe, script, timeout, args, env)
        if crash or len(out) < len(script):
            out2, crash2 = self.drive(exe, script, timeout, args, env)
            if not (crash2 or len(out2) < len(script)):
                raise CheckError("%s: a crash did not repeat: %s" % (what, crash))
            k = min(len(out2), len(script) - 1)
            j = k
            while j > 0 and script[j] != reset:
                j -= 1
            raise Violation("%s: after %r: %s" % (what, script[max(j, k - 8): k + 1], crash2 or "the driver stopped early"),
                            {"kind": "replay", "driver": os.path.basename(exe), "args": list(args), "script": script[j:k + 1],
                             "why": crash2 or "the driver stopped early"})
        traces, cur = [], None
        for k, (e, o) in enumerate(zip(loc, out)):
            if e is None:
                if o != "{}":
                    j = max([i for i in range(k) if loc[i] is None] or [0])
                    raise Violation("%s: after %r: %s" % (what, script[j:k][-12:], o),
                                    {"kind": "replay", "driver": os.path.basename(exe), "args": list(args), "script": script[j:k + 1], "why": o})
                cur = []
                traces.append(cur)
                continue
            if cur is None:
                cur = []
                traces.append(cur)
            r = dict(e)
            try:
                r.update(json.loads(o))
            except ValueError:
                raise CheckError("%s: driver answered <%s> to %s" % (what, o[:300], json.dumps(e)[:300]))
            cur.append(r)
        return traces

    # ---------------------------------------------------------------- results
    def expect(self, cond, what, replay):
        if not cond:
            raise Violation(what, replay)

    def evidence(self, violations):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "implementation_operations": self.ops,
               "operations_by_kind": dict(self.per_action), "samples": self.samples or ["(none)"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(OUT + "/evidence", exist_ok=True)
        p = OUT + "/evidence/%s.json" % self.prop
        with open(p + ".tmp", "w") as o:
            json.dump(ev, o, indent=1)
        os.replace(p + ".tmp", p)


def load_known(prop):
    """Lines 'known: property=<id> key=<key> <what>' of KNOWN_FINDINGS.txt."""
    out = {}
    p = VERIF + "/KNOWN_FINDINGS.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def main(prop, body, level="model_checking"):
    c = Check(prop, level)
    rc = 0
    try:
        body(c)
        c.evidence(0)
    except Violation as v:
        d = OUT + "/replays/" + prop
        os.makedirs(d, exist_ok=True)
        p = "%s/violation.json" % d
        with open(p, "w") as o:
            json.dump({"property": prop, "what": v.what, "replay": v.replay}, o, indent=1)
        print(v.what[:3000])
        c.evidence(1)
        print("VIOLATION property=%s replay=%s" % (prop, p))
        rc = 1
    except CheckError as e:
        print("ERROR property=%s: %s" % (prop, e))
        rc = 2
    for k in sorted(c.known_hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, c.known.get(k, k)))
    print("%s %s: exit %d, %d states, %d transitions, %d behaviours replayed/validated, %d operations, %.1fs" %
          (prop, c.tier, rc, c.states, c.transitions, c.traces, c.ops, time.time() - c.t0))
    if not os.environ.get("VF_KEEP"):
        shutil.rmtree(c.dir, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


class Graph:
    """Labelled transition graph as TLC emitted it."""

    def __init__(self):
        self.ids, self.states, self.out = {}, [], []
        self.n = 0
        self.init = None

    def sid(self, s):
        k = json.dumps(s, sort_keys=True)
        i = self.ids.get(k)
        if i is None:
            i = self.ids[k] = len(self.states)
            self.states.append(s)
            self.out.append([])
        return i

    def add(self, a, ev, b):
        ia, ib = self.sid(a), self.sid(b)
        if self.init is None:
            self.init = ia      # TLC emits the initial state's successors first
        self.out[ia].append((ev, ib))
        self.n += 1

    def cover(self, maxlen=400, rng=None):
        """Walks from the initial state that together take every transition."""
        todo = [list(range(len(o))) for o in self.out]
        left = self.n
        walks, cur, walk = [], self.init, []
        while left:
            if len(walk) >= maxlen:
                walks.append(walk)
                cur, walk = self.init, []
            if todo[cur]:
                k = todo[cur].pop()
                left -= 1
                ev, nx = self.out[cur][k]
                walk.append((ev, self.states[nx]))
                cur = nx
                continue
            path = self._nearest(cur, todo)
            if path is None:
                if not walk and cur == self.init:
                    raise CheckError("graph has transitions unreachable from its initial state")
                walks.append(walk)
                cur, walk = self.init, []
                continue
            for ev, nx in path:
                walk.append((ev, self.states[nx]))
                cur = nx
        if walk:
            walks.append(walk)
        return walks

    def _nearest(self, src, todo):
        prev = {src: None}
        q = collections.deque([src])
        while q:
            u = q.popleft()
            if todo[u]:
                path = []
                while prev[u] is not None:
                    p, ev = prev[u]
                    path.append((ev, u))
                    u = p
                return path[::-1]
            for ev, v in self.out[u]:
                if v not in prev:
                    prev[v] = (u, ev)
                    q.append(v)
        return None

    def random_walks(self, n, length, rng, weight=None):
        walks = []
        for _ in range(n):
            cur, w = self.init, []
            for _ in range(length):
                o = self.out[cur]
                if not o:
                    break
                ev, nx = o[rng.randrange(len(o))]
                w.append((ev, self.states[nx]))
                cur = nx
            walks.append(w)
        return walks

    def all_paths(self, depth):
        """Every path of at most the given length (only maximal ones)."""
        res = []

        def go(cur, w, d):
            if d == 0 or not self.out[cur]:
                res.append(list(w))
                return
            for ev, nx in self.out[cur]:
                w.append((ev, self.states[nx]))
                go(nx, w, d - 1)
                w.pop()
        go(self.init, [], depth)
        return res
