"""The cluster the clients talk to: starts a driver, gives it commands, answers its calls, and records what happens."""
import json, os, select, subprocess
import minithrift
import vals as V

BIG = 1 << 31


def words():
    return ["", "a", "b", "name", "x y", "ü", "quo\"te", "back\\slash", "nul\0in", "t" * 40, "9", "-1", "\x01\xff", "x:41"]


def enc(s):
    b = s.encode("latin1") if isinstance(s, str) else s
    if all(32 <= c < 127 for c in b) and not b.startswith(b"x:"): return b.decode()
    return "x:" + b.hex()


class Gen:
    """Random values of the types of the interface, as the driver's JSON."""
    def __init__(self, parser, rng):
        self.p, self.r = parser, rng
        self.over = {}

    def text(self): return enc(self.r.choice(words() + ["seg1", "Seg", "key"] * 2))
    def host(self): return self.r.choice(["h1:1", "h2:2", "10.0.0.1:9779", "h3:65535", "h4:9"])
    def num(self, bits): return self.r.choice([0, 1, 2, 3, 7, -1, 100, (1 << (bits - 1)) - 1, -(1 << (bits - 1)), self.r.randrange(1000)])

    def val(self):
        r = self.r
        return V.text(r.choice([V.I(5), V.I(-2**63), V.S(b""), V.S(b"some text"), V.B(1), V.N(), V.E, V.F(1.5), V.L(V.I(1), V.S(b"q")), V.M(k=V.I(2))]))

    def of(self, u, t, depth=0):
        k, a, b, an = t
        r = self.r
        if k in ("list", "set"):
            n = r.choice([0, 1, 2, 3]) if depth < 3 else r.choice([0, 1])
            xs = [self.of(u, a, depth + 1) for _ in range(n)]
            if k == "set": xs = [json.loads(x) for x in sorted({json.dumps(x) for x in xs})]
            return xs
        if k == "map":
            m = {}
            for _ in range(r.choice([0, 1, 2, 3])):
                key = self.of(u, a, depth + 1)
                m[json.dumps(key)] = [key, self.of(u, b, depth + 1)]
            return list(m.values())
        if a in minithrift.BASE:
            if a == "bool": return r.random() < 0.5
            if a in ("byte", "i16", "i32", "i64"): return self.num({"byte": 8, "i16": 16, "i32": 32, "i64": 64}[a])
            if a in ("double", "float"): return r.choice([0.0, 1.5, -2.25])
            return self.text()
        v, n, d = self.p.find(u, a)
        if d[0] == "typedef": return self.of(v, d[1], depth)
        c = d[1] or ""
        if c.endswith("HostAddr"): return self.host()
        if c.endswith("KeyValue"): return [self.text(), self.text()]
        if c.endswith("Value"): return self.val()
        if c.endswith("DataSet"): return V.text(V.G(["c1", "c2"], [V.I(1), V.S(b"r")])) if r.random() < 0.7 else V.text(V.G([]))
        if c.endswith("Row"): return V.text(V.L(V.I(1), V.S(b"c")))
        body = [x for x in v.decls if x[1] == n][0][2]
        if d[0] == "enum": return r.choice(body)[0]
        if d[0] == "union":
            f = r.choice(body)
            return {f[2]: self.of(v, f[1], depth + 1)}
        o = {}
        for q, t2, f, _ in body:
            if q == "optional" and r.random() < 0.5: continue
            o[f] = self.of(v, t2, depth + 1)
        return o

    def struct(self, unit, name):
        u = self.p.load(unit)
        return self.of(u, ("name", name, None, {}))

    def typ(self, unit, text):
        """text: a C++ type as in the driver's tables"""
        u = self.p.load(unit)
        t = text.replace("mc::", "").replace("sc::", "").replace("nebula::cpp2::", "common.")
        m = {"S": ("name", "binary", None, {}), "bool": ("name", "bool", None, {}), "int64_t": ("name", "i64", None, {}), "int32_t": ("name", "i32", None, {}),
             "GraphSpaceID": ("name", "i32", None, {}), "PartitionID": ("name", "i32", None, {}), "TagID": ("name", "i32", None, {}), "EdgeType": ("name", "i32", None, {}), "SessionID": ("name", "i64", None, {}),
             "HostAddr": ("name", "common.HostAddr", None, {}), "Value": ("name", "common.Value", None, {})}
        if t in ("VS", "VEC(std::string)"): return [self.text() for _ in range(self.r.choice([0, 1, 2, 3]))]
        if t == "PAIRS": return [[self.text(), self.text()] for _ in range(self.r.choice([0, 1, 3]))]
        if t == "KQ":
            return [[i, sorted({self.num(64) for _ in range(self.r.choice([0, 1, 3]))}, key=json.dumps)] for i in {self.num(64) for _ in range(self.r.choice([0, 1, 3]))}]
        if t.startswith("VEC("): return self.of(u, ("list", m.get(t[4:-1], ("name", t[4:-1], None, {})), None, {}))
        return self.of(u, m.get(t, ("name", t, None, {})))


class Cluster:
    def __init__(self, exe, cwd, seed=1, names=None, flags=None, threads=2, local="self:1", role="GRAPH", skip=True, cluster=0, addrs=("m1:1", "m2:2", "m3:3"), listener=False, log=None, **more):
        self.err = open(cwd + "/driver.err", "w+")
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, cwd=cwd, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        self.ev, self.pending, self.open, self.sent, self.crash, self.buf = [], {}, {}, [], None, b""
        self.read()
        self.cmd(do="new", seed=seed, names=names or {}, flags={k: str(v) for k, v in (flags or {}).items()}, threads=threads, local=local, role=role, skipConfig=skip, cluster=cluster, addrs=list(addrs), listener=listener, **more)

    def line(self, timeout=60):
        while b"\n" not in self.buf:
            if not select.select([self.p.stdout], [], [], timeout)[0]:
                self.p.kill(); self.crash = "hangs"; return None
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                self.p.wait(); self.err.seek(0)
                e = self.err.read()
                i = max(e.find("ERROR: AddressSanitizer"), e.find("Check failed"), e.find("terminate called"))
                self.crash = "ends (%s): %s" % (self.p.returncode, e[max(i - 60, 0):][:1500]); return None
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode()

    def read(self):
        got = []
        while self.crash is None:
            l = self.line()
            if l is None: break
            if l == "?": break
            try: e = json.loads(l)
            except ValueError: self.p.kill(); self.crash = "says " + l[:300]; return got
            if e["e"] == "call": self.pending[e["call"]] = e
            if e["e"] == "start": self.open[e["id"]] = e
            if e["e"] == "done": self.open.pop(e["id"], None)
            self.ev.append(e); got.append(e)
        return got

    def cmd(self, **k):
        if self.crash: return []
        self.sent.append(k)
        if k["do"] in ("answer", "fail"): self.pending.pop(k["call"])
        try:
            self.p.stdin.write((json.dumps(k) + "\n").encode()); self.p.stdin.flush()
        except BrokenPipeError: pass
        return self.read()

    def close(self):
        try: self.p.stdin.close()
        except Exception: pass
        try: self.p.wait(20)
        except Exception: self.p.kill(); self.p.wait()
        self.p.stdout.close(); self.err.close()


def flat(x):
    """What a specification reads of a value: numbers beyond 32 bits and nested parts as text."""
    return json.dumps(x, sort_keys=True, ensure_ascii=False, separators=(",", ":"))


def fields(d):
    """Each field as text; the fields of unions and nested records once more, dotted."""
    o = {}
    for k, v in d.items():
        o[k] = flat(v)
        if isinstance(v, dict):
            for k2, v2 in v.items(): o[k + "." + k2] = flat(v2)
    return o


class Metad:
    """Answers what a client asks the meta service, from a plain state."""
    def __init__(self):
        self.spaces = {}     # id -> {name, parts: {p: [host]}, terms: {p: n} | None, vid, len, tags, edges, tagIndexes, edgeIndexes, listeners, desc}
        self.hosts = []      # [(host, {space name: [part]})]
        self.users, self.roles = {}, {}
        self.ftClients, self.ftIndexes = [], []
        self.configs, self.time, self.cluster = [], 1, 77

    def space(self, q): return self.spaces.get(int(q.get("space_id", 0)))

    def answer(self, e):
        m, q = e["method"], e["req"]
        s = self.space(q) if "space_id" in q else None
        lists = {"listTags": ("tags", "tags"), "listEdges": ("edges", "edges"), "listTagIndexes": ("items", "tagIndexes"), "listEdgeIndexes": ("items", "edgeIndexes"), "listListener": ("listeners", "listeners")}
        r = {"code": "SUCCEEDED", "leader": ""}
        if m in lists: r[lists[m][0]] = s.get(lists[m][1], [])
        elif m == "heartBeat": r.update(cluster_id=self.cluster, last_update_time_in_ms=self.time)
        elif m == "listUsers": r["users"] = [[u, p] for u, p in self.users.items()]
        elif m == "getUserRoles": r["roles"] = self.roles.get(q["account"], [])
        elif m == "listFTClients": r["clients"] = self.ftClients
        elif m == "listFTIndexes": r["indexes"] = self.ftIndexes
        elif m == "listSpaces": r["spaces"] = [{"id": {"space_id": k}, "name": v["name"]} for k, v in self.spaces.items()]
        elif m == "getPartsAlloc":
            r["parts"] = [[p, h] for p, h in s["parts"].items()]
            if s.get("terms") is not None: r["terms"] = [[p, t] for p, t in s["terms"].items()]
        elif m == "getSpace":
            k, v = [(k, v) for k, v in self.spaces.items() if v["name"] == q["space_name"]][0]
            d = dict({"space_name": v["name"], "partition_num": len(v["parts"]), "replica_factor": 1, "charset_name": "utf8", "collate_name": "utf8_bin", "vid_type": {"type": v["vid"], "type_length": v.get("len", 8)}}, **v.get("desc", {}))
            r["item"] = {"space_id": k, "properties": d}
        elif m == "listHosts":
            r["hosts"] = [{"hostAddr": h, "status": "ONLINE", "leader_parts": [[n, p] for n, p in l.items()], "all_parts": [], "role": "STORAGE", "git_info_sha": ""} for h, l in self.hosts]
        elif m == "getConfig": r["items"] = [c for c in self.configs if c["module"] == q["item"]["module"] and c["name"] == q["item"]["name"]]
        elif m == "listConfigs": r["items"] = self.configs
        elif m == "regConfig": r["id"] = {"space_id": 0}
        else: raise KeyError(m)
        return r
