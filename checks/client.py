"""The clients of the meta and the storage service: routing and results (C22), caches (C23), calls to metad (C24), schemas (C25)."""
import glob, json, os, subprocess, threading
import vf
import minithrift
import expr
from cluster import Cluster, Gen, Metad, fields, flat, enc


def build(c):
    gen = c.dir + "/gen"
    made = minithrift.generate(vf.SRC + "/common/interface", gen)
    src = [vf.VERIF + "/harness/client_driver.cpp"] + expr.sources() + [
        "common/clients/meta/MetaClient.cpp", "common/clients/meta/FileBasedClusterIdMan.cpp", "common/clients/storage/StorageClientBase.cpp", "common/clients/storage/GraphStorageClient.cpp",
        "common/clients/storage/GeneralStorageClient.cpp", "common/clients/storage/InternalStorageClient.cpp", "common/meta/NebulaSchemaProvider.cpp", "common/meta/SchemaProviderIf.cpp",
        "common/meta/ServerBasedSchemaManager.cpp", "common/meta/ServerBasedIndexManager.cpp", "common/meta/SchemaManager.cpp", "common/meta/IndexManager.cpp", "common/meta/GflagsManager.cpp",
        "common/conf/Configuration.cpp", "common/network/NetworkUtils.cpp", "common/fs/FileUtils.cpp", vf.VERIF + "/shim/json_impl.cpp"] + made
    plain = {f: ["-DVF_NOSAN"] for f in made + expr.sources()}
    return c.build("client", src, shim=True, san=("address",), opt="-O0", perfile=plain, flags=["-DVF_FUTURES", "-I" + vf.VERIF + "/shim_rpc", "-I" + gen])



# ---------------------------------------------------------------- requests to the storage service
import vals as V
ITEMS = {"getNeighbors": "row", "getProps": "row", "addVertices": "NewVertex", "addEdges": "NewEdge", "deleteEdges": "EdgeKey", "deleteVertices": "Value", "deleteTags": "DelTags",
         "get": "text", "remove": "text", "put": "pair", "updateVertex": "Value", "updateEdge": "EdgeKey", "getUUID": "text"}
TRAVERSE = [("column_names", "VS"), ("traverse_spec.edge_types", "VEC(EdgeType)"), ("traverse_spec.edge_direction", "EdgeDirection"), ("?traverse_spec.stat_props", "VEC(StatProp)"), ("?traverse_spec.vertex_props", "VEC(VertexProp)"),
            ("?traverse_spec.edge_props", "VEC(EdgeProp)"), ("?traverse_spec.expressions", "VEC(Expr)"), ("traverse_spec.dedup", "bool"), ("traverse_spec.random", "bool"), ("traverse_spec.order_by", "VEC(OrderBy)"),
            ("traverse_spec.limit", "int64_t"), ("traverse_spec.filter", "S")]
UPDATE = [("updated_props", "VEC(UpdatedProp)"), ("insertable", "bool"), ("return_props", "VS"), ("condition", "S")]
ARGS = {"getNeighbors": TRAVERSE, "addVertices": [("prop_names", "TAGNAMES"), ("if_not_exists", "bool")], "addEdges": [("prop_names", "VS"), ("if_not_exists", "bool")],
        "getProps": [("?vertex_props", "VEC(VertexProp)"), ("?edge_props", "VEC(EdgeProp)"), ("?expressions", "VEC(Expr)"), ("dedup", "bool"), ("order_by", "VEC(OrderBy)"), ("limit", "int64_t"), ("filter", "S")],
        "updateVertex": [("tag_id", "TagID")] + UPDATE, "updateEdge": UPDATE, "lookupIndex": [("indices.contexts", "VEC(IndexQueryContext)"), ("indices.is_edge", "bool"), ("indices.tag_or_edge_id", "int32_t"), ("return_columns", "VS")],
        "lookupAndTraverse": [("indices", "IndexSpec"), ("traverse_spec", "TraverseSpec")], "get": [("return_partly", "bool")]}
GRAPH = ["getNeighbors", "addVertices", "addEdges", "getProps", "deleteEdges", "deleteVertices", "deleteTags", "updateVertex", "updateEdge", "getUUID", "lookupIndex", "lookupAndTraverse", "scanEdge", "scanVertex"]


def dec(s): return bytes.fromhex(s[2:]) if s.startswith("x:") else s.encode()
def addr(s): h, p = s.rsplit(":", 1) if ":" in s else ("", "0"); return {"h": h, "p": int(p)}


def an_id(v):
    """A vertex id (a value as text) for the specification."""
    v = V.parse(v)
    return {"int": v[0] == "I", "b": list(v[1].to_bytes(8, "little", signed=True) if v[0] == "I" else v[1])}


def item(kind, x, edge=False):
    if kind == "text": return {"t": "", "ids": [{"int": False, "b": list(dec(x))}]}
    if kind == "pair": return {"t": x[1], "ids": [{"int": False, "b": list(dec(x[0]))}]}
    if kind == "Value": return {"t": "", "ids": [an_id(x)]}
    if kind == "row":
        r = V.parse(x)[1]
        at = [0, 3] if edge else [0]
        return {"t": "|".join("@" if i in at else V.text(v) for i, v in enumerate(r)), "ids": [an_id(V.text(r[i])) for i in at]}
    x = json.loads(json.dumps(x))
    if kind == "EdgeKey": ids = [x.pop("src"), x.pop("dst")]
    elif kind == "NewEdge": ids = [x["key"].pop("src"), x["key"].pop("dst")]
    else: ids = [x.pop("id")]
    return {"t": flat(x), "ids": [an_id(i) for i in ids]}


class Route:
    def __init__(self, c, g, meta, stor, exe):
        self.g, self.r, self.c, self.meta, self.stor = g, c.rng, c, meta, stor
        self.rets = {m: rt for s in stor.services for rt, m, _ in s[1]}
        r = self.r
        self.hosts = ["10.0.0.1:9779", "10.0.0.2:9779", "10.0.0.3:65000", "n1:9779", "n2:44500", "lost:9779"]
        self.names = {"n1": "10.1.0.1", "n2": "10.1.0.2"}
        self.cl = Cluster(exe, c.dir, seed=r.randrange(1 << 30), names=self.names, flags={"storage_client_timeout_ms": 9000, "heartbeat_interval_secs": 10}, threads=r.choice([1, 2, 3]))
        self.md = Metad()
        self.t = [{"op": "new", "names": [[k, v] for k, v in self.names.items()]}]
        self.seen = len(self.cl.ev)
        self.starting, self.nid, self.kind, self.edge, self.socks, self.made, self.sid = None, 0, {}, {}, set(), {}, 0

    def run(self, **k):
        self.cl.cmd(**k)
        while self.seen < len(self.cl.ev):
            e = self.cl.ev[self.seen]; self.seen += 1
            x = self.event(e)
            if x: self.t.append(x)

    # ---- what happened, as the specification reads it
    def event(self, e):
        k = e["e"]
        if k == "start":
            m, a = self.made[e["id"]], dict(e["a"])
            self.starting = e["id"]
            o = {"items": [], "part": 0}
            name = "addEdgesAtomic" if m.get("toss") else m["m"]
            s = a.pop("space_id", 0); f = {}
            kind = ITEMS.get(m["m"])
            src = {"updateVertex": "vertex_id", "updateEdge": "edge_key", "getUUID": "name"}.get(m["m"], "items")
            edge = m["m"] == "getProps" and "edge_props" in a and m["vid"] == "INT64"
            self.edge[e["id"]] = edge
            if kind:
                xs = a.pop(src)
                o["items"] = [item(kind, x, edge) for x in (xs if src == "items" else [xs])]
            if m["m"].startswith("scan"): a = a["req"]; s = a.pop("space_id"); o["part"] = a.pop("part_id")
            if m["m"] == "forwardTransaction": o["part"] = a.pop("part_id"); a["data"] = [[], [a["data"]]]; a["position"] = 1
            if m["m"] == "getValue": n = a.pop("vid_len"); o["items"] = [{"t": "", "ids": [{"int": False, "b": list(dec(a["key"])[4:4 + n])}]}]
            return {"op": "start", "id": e["id"], "m": name, "s": s, "o": o, "evb": 50 if m["evb"] else 0, "f": {x: flat(y) for x, y in a.items()}}
        if k == "started": self.starting = None; return {"op": k, "id": e["id"]}
        if k == "call":
            if e["service"] == "MetaService": return None
            q = json.loads(json.dumps(e["req"])); m = e["method"].replace("Atomic", "")
            s = q.pop("space_id"); kind = ITEMS.get(m)
            if m == "getProps": edge = "edge_props" in q and self.cl_vid(s) == "INT64"
            else: edge = False
            if "parts" in q:
                ps = q.pop("parts")
                parts = [{"p": p[0], "items": [item(kind, x, edge) for x in p[1]]} for p in ps] if kind else [{"p": p, "items": []} for p in ps]
            else:
                p = q.pop("part_id")
                key = {"updateVertex": "vertex_id", "updateEdge": "edge_key", "getUUID": "name"}.get(m)
                parts = [{"p": p, "items": [item(kind, q.pop(key))] if key else []}]
            f = {}
            for x, y in q.items():
                if m in ("getNeighbors", "lookupIndex") and isinstance(y, dict):
                    for x2, y2 in y.items(): f[x + "." + x2] = flat(y2)
                else: f[x] = flat(y)
            self.socks.add(e["sock"])
            return {"op": k, "call": e["call"], "service": e["service"], "method": e["method"], "s": s, "host": addr(e["host"]), "evb": e["evb"], "running": e["running"], "sock": e["sock"], "timeout": e["timeout"], "f": f, "parts": parts}
        if k == "answered":
            if "result" not in e["reply"]: return None
            rp = e["reply"]
            return {"op": k, "call": e["call"], "fs": [{"part": x["part_id"], "code": x["code"], "leader": addr(x.get("leader", ""))} for x in rp["result"]["failed_parts"]], "lat": rp["result"]["latency_in_us"], "all": flat(rp), "val": rp.get("value", "") if isinstance(rp.get("value", ""), str) else ""}
        if k == "failed": return {"op": k, "call": e["call"], "msg": e["msg"]}
        if k == "slept": return {"op": k, "ms": e["ms"]}
        if k == "done":
            o = {"op": k, "id": e["id"], "ok": e["ok"], "x": e.get("x", e.get("s", "")), "right": e.get("right", False)}
            if "completeness" in e: o.update(succeeded=e["succeeded"], completeness=e["completeness"], max=e["max"], failed=[{"p": p, "code": x} for p, x in e["failed"]], responses=[flat(x) for x in e["responses"]], lat=[{"host": addr(h), "t": t} for h, t, ok in e["lat"] if ok])
            else: o["v"] = e.get("v", "") if isinstance(e.get("v", ""), str) else flat(e["v"])
            return o
        if k == "partid": return {"op": "place", "k": list(dec(self.key)), "n": e["n"], "v": e["v"]}
        if k == "stuck": raise vf.Violation("the client waits for nothing", {"kind": "trace", "trace": self.t, "commands": self.cl.sent})
        return None

    def cl_vid(self, s): return self.loaded.get(s, {}).get("vid")
    loaded = {}

    # ---- the cluster changes
    def spaces(self):
        r, md = self.r, self.md
        # spaces come and go, names are used again; a space keeps its number of parts and its type of ids
        for s in list(md.spaces):
            if r.random() < 0.15: md.spaces.pop(s)
        for name in ("a", "b", "c"):
            if name not in [v["name"] for v in md.spaces.values()] and r.random() < 0.5:
                self.sid += r.choice([1, 1, 2, 995])
                n = r.choice([1, 2, 3, 3, 5, 10]) if r.random() < 0.95 else 40
                md.spaces[self.sid] = {"name": name, "vid": r.choice(["INT64", "FIXED_STRING", "FIXED_STRING"]) if r.random() < 0.95 else "STRING", "parts": {p: None for p in range(1, n + 1)}}
        for s, v in md.spaces.items():
            hs = r.sample(self.hosts, r.choice([1, 2, 3, 4]))
            for p in v["parts"]:
                if v["parts"][p] is None or r.random() < 0.2: v["parts"][p] = r.sample(hs, r.randint(1, min(3, len(hs))))
        lead = {h: {} for h in self.hosts}
        for s, v in md.spaces.items():
            for p, hs in v["parts"].items():
                if r.random() < 0.6: lead[r.choice(hs) if r.random() < 0.9 else r.choice(self.hosts)].setdefault(v["name"], []).append(p)
        lead[self.hosts[0]]["unknown space"] = [1, 2]
        md.hosts = [(h, l) for h, l in lead.items() if l or r.random() < 0.5]
        r.shuffle(md.hosts)

    def load(self):
        """The client loads; nothing else happens until it has."""
        first = self.loaded == {}
        self.run(do="ready" if first or self.r.random() < 0.5 else "refresh", id=0)
        while not self.cl.crash:
            if self.cl.ev[-1]["e"] in ("ready", "refresh"): break
            todo = [k for k, e in self.cl.pending.items() if e["service"] == "MetaService"]
            if not todo: self.run(do="advance"); continue
            self.run(do="answer", call=todo[0], reply=self.md.answer(self.cl.pending[todo[0]]))
        e = self.cl.ev[-1]
        if self.cl.crash: return
        if e.get("v", e.get("ok")) is not True: raise vf.Violation("a load that was answered failed", {"kind": "commands", "commands": self.cl.sent, "event": e})
        self.loaded = json.loads(json.dumps(self.md.spaces)); self.loaded = {int(k): v for k, v in self.loaded.items()}
        ids = {v["name"]: k for k, v in self.loaded.items()}
        self.t.append({"op": "load", "spaces": [{"id": k, "vid": v["vid"], "hosts": [[addr(h) for h in v["parts"][str(p)]] for p in range(1, len(v["parts"]) + 1)]} for k, v in self.loaded.items()],
                       "leaders": [{"s": ids[n], "p": p, "host": addr(h)} for h, l in self.md.hosts for n, ps in l.items() if n in ids for p in ps]})

    # ---- what is asked
    def vid(self, ty):
        r = self.r
        if ty == "INT64": return V.text(V.I(r.choice([0, 1, -1, 2, 7, 255, 256, 1 << 40, (1 << 63) - 1, -(1 << 63), r.randrange(-1000, 1000)])))
        return V.text(V.S(self.key_bytes()))

    def key_bytes(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 7, 8, 8, 9, 12, 15, 16, 17, 24, 31])
        return bytes(r.choice([r.randrange(256), r.randrange(97, 123), 255, 128]) if r.random() < 0.97 else 0 for _ in range(n)) if r.random() < 0.8 else r.choice([b"player100", b"Tim", b"a", b"12345678", b"vertex-000000001"])

    def an_item(self, kind, ty, edge):
        g, r = self.g, self.r
        if kind == "text": return enc(self.key_bytes())
        if kind == "pair": return [enc(self.key_bytes()), g.text()]
        if kind == "Value": return self.vid(ty)
        if kind == "row":
            w = [V.parse(g.val()) for _ in range(r.choice([0, 1, 3]) if not edge else 4)]
            if edge: w[2] = V.parse(self.vid(ty))
            return V.text(V.L(V.parse(self.vid(ty)), *w))
        x = g.typ("storage", kind)
        if kind == "EdgeKey": x["src"], x["dst"] = self.vid(ty), self.vid(ty)
        elif kind == "NewEdge": x["key"]["src"], x["key"]["dst"] = self.vid(ty), self.vid(ty)
        else: x["id"] = self.vid(ty)
        return x

    def start(self, m):
        g, r = self.g, self.r
        self.nid += 1
        s = r.choice(list(self.loaded) * 4 + [1, 9]); sp = self.loaded.get(s, {"vid": "INT64", "parts": {1: 0}})
        a = {"space_id": s}
        for f, t in ARGS.get(m, []):
            if f[0] == "?":
                if r.random() < 0.5: continue
                f = f[1:]
            a[f] = [[i, [g.text() for _ in range(r.choice([0, 1, 2]))]] for i in r.sample([1, 2, 3, -5], r.choice([0, 1, 2]))] if t == "TAGNAMES" else g.typ("storage", t)
        client = "graph" if m in GRAPH else "internal" if m in ("forwardTransaction", "getValue") else "general"
        kind = ITEMS.get(m)
        if kind:
            edge = m == "getProps" and "edge_props" in a
            key = {"updateVertex": "vertex_id", "updateEdge": "edge_key", "getUUID": "name"}.get(m)
            one = lambda: self.an_item(kind, sp["vid"], edge)
            if key: a[key] = one()
            else:
                xs = [one() for _ in range(r.choice([0, 1, 2, 3, 5, 9]))]
                if xs and r.random() < 0.2: xs.append(r.choice(xs))
                a["items"] = xs
        part = r.randint(1, len(sp["parts"])) if r.random() < 0.93 else r.choice([0, 99, -1])
        if m.startswith("scan"):
            a["req"] = g.typ("storage", "ScanEdgeRequest" if m == "scanEdge" else "ScanVertexRequest"); a["req"].update(space_id=s, part_id=part)
        if m == "forwardTransaction": a.update(txn_id=g.num(64), part_id=part, data=g.text())
        if m == "getValue":
            v = self.key_bytes(); a.update(vid_len=len(v), key=enc(bytes([1, 2, 3, r.randrange(256)]) + v + r.choice([b"", b"rest\0"])))
        d = dict(do="start", id=self.nid, client=client, m=m, a=a)
        toss = m == "addEdges" and r.random() < 0.4
        if toss: a["toss"] = True
        evb = r.random() < 0.4
        if evb: d["evb"] = True
        if r.random() < 0.3: d["preempt"] = True
        self.made[self.nid] = {"m": m, "toss": toss, "evb": evb, "vid": sp["vid"]}
        self.run(**d)

    def reply(self, k):
        g, r = self.g, self.r
        e = self.cl.pending[k]
        x = g.of(self.stor, self.rets[e["method"]])
        q = e["req"]
        ps = [p[0] if isinstance(p, list) else p for p in q["parts"]] if "parts" in q else [q["part_id"]]
        fs = []
        y = r.random()
        if y < 0.55:
            for _ in range(r.choice([1, 1, 2, 3])):
                f = {"part_id": r.choice(ps) if r.random() < 0.95 else r.choice([1, 2, 77]), "code": r.choice(["E_LEADER_CHANGED"] * 4 + ["E_PART_NOT_FOUND", "E_SPACE_NOT_FOUND", "E_CONSENSUS_ERROR", "E_KEY_NOT_FOUND", "E_RPC_FAILURE", "E_TAG_NOT_FOUND"])}
                if r.random() < 0.8: f["leader"] = r.choice(self.hosts + ["10.0.0.9:1234", "", "10.0.0.1:0", ":9779"])
                fs.append(f)
        x["result"] = {"failed_parts": fs, "latency_in_us": r.choice([0, 1, 17, 40, 1 << 30, -1])}
        return x

    def story(self, ops, steps):
        r = self.r
        while (ops or self.cl.open or self.storage()) and not self.cl.crash and steps > 0:
            steps -= 1
            p = self.storage()
            if self.starting is not None:
                # the thread that starts the operation is held up; the others go on
                if r.random() < 0.3: self.run(do="go")
                elif p and r.random() < 0.6:
                    k = r.choice(p)
                    if r.random() < 0.2: self.run(do="fail", call=k, msg="broken %d" % steps)
                    else: self.run(do="answer", call=k, reply=self.reply(k))
                    for _ in range(40):
                        if self.starting is None or self.cl.crash: break
                        self.run(do="step")
                        if self.cl.ev[-1]["e"] == "stepped" and self.cl.ev[-1]["left"] == 0: break
                else: self.run(do="step")
                continue
            x = r.random()
            if x < 0.06 and len(self.cl.open) < 3: self.spaces(); self.load()
            elif x < 0.10 and self.socks:
                k = r.choice(sorted(self.socks)); self.t.append({"op": "break", "sock": k}); self.run(do="break", sock=k, how=r.choice(["hung", "bad"]))
            elif x < 0.13: self.key = enc(self.key_bytes()); self.run(do="partid", k=self.key, n=r.choice([1, 2, 3, 7, 10, 100, 1 << 14]))
            elif ops and (x < 0.45 or not p): self.start(ops.pop())
            elif p:
                k = r.choice(p)
                if r.random() < 0.15: self.run(do="fail", call=k, msg="broken %d" % steps)
                else: self.run(do="answer", call=k, reply=self.reply(k))
            else: self.run(do="advance")

    def storage(self): return [k for k, e in self.cl.pending.items() if e["service"] != "MetaService"]


def route(c):
    exe = os.environ.get("VF_CLIENT") or build(c)
    c.tlc("client/StorageMC", "StorageMC.cfg", workers=4)
    p = minithrift.Parser(vf.SRC + "/common/interface")
    g = Gen(p, c.rng)
    meta, stor = p.load("meta"), p.load("storage")
    todo = [m for m in GRAPH + ["get", "put", "remove", "forwardTransaction", "getValue"] for _ in range(150 if c.thorough else 30)]
    c.rng.shuffle(todo)
    traces = []
    while todo:
        n = c.rng.choice([4, 8, 15])
        w = Route(c, g, meta, stor, exe)
        if c.rng.random() < 0.15: w.story([todo.pop()], 50)
        w.spaces()
        if not w.cl.crash: w.load()
        w.story([todo.pop() for _ in range(min(n, len(todo)))], 600)
        w.cl.close()
        if w.cl.crash: raise vf.Violation("the client %s" % w.cl.crash, {"kind": "commands", "commands": w.cl.sent})
        traces.append(w.t + [{"op": "end"}])
    c.validate_parallel("client/StorageTrace", "StorageTrace.cfg", traces, "requests to the storage service", show=lambda e: e)


# ---------------------------------------------------------------- calls to the meta service
def meta_api():
    """name -> [(field, type)] as the driver's table has them."""
    import re
    api = {}
    for l in open(vf.VERIF + "/harness/client_meta_api.h"):
        m = re.match(r"S\((\w+), (.*), c\.\w+\(", l)
        if not m: continue
        fs = []
        for d in m.group(2).split("; "):
            for pat, ty in ((r'A\((.*), "([^"]+)"\)', None), (r'a\.pairs\((?:)"([^"]+)"\)', "PAIRS"), (r'a\.opt\("([^"]+)", v\ds\)', "OPT")):
                x = re.search(pat, d)
                if x:
                    if ty is None: fs.append((x.group(2), x.group(1)))
                    elif ty == "OPT": fs.append((x.group(1), "OPTST" if x.group(1) == "statis" else "OPTS"))
                    else: fs.append((x.group(1), ty))
                    break
        api[m.group(1)] = fs
    return api


def meta_args(g, r, fs):
    a = {}
    for f, t in fs:
        if t.startswith("OPT"):
            x = r.random()
            if x < 0.4: continue
            if x < 0.6 and t == "OPTS": a[f] = ""; continue
            t = {"OPTS": "S", "OPTST": "StatisItem"}[t]
        t = {"std::string": "S", "VEC(std::string)": "VS"}.get(t, t)
        a[f] = g.typ("meta", t)
    return a



def calls(c):
    exe = os.environ.get("VF_CLIENT") or build(c)
    c.tlc("client/MetaCallsMC", "MetaCallsMC.cfg", workers=4)
    p = minithrift.Parser(vf.SRC + "/common/interface")
    g = Gen(p, c.rng)
    meta = p.load("meta")
    codes = [n for n, _ in [d for d in p.load("common").decls if d[1] == "ErrorCode"][0][2]]
    rets = {m: rt for s in meta.services if s[0] == "MetaService" for rt, m, _ in s[1]}
    api = meta_api()
    names = sorted(api)
    traces, k = [], 0
    rounds = 60 if c.thorough else 10
    todo = [n for n in names for _ in range(rounds)]
    c.rng.shuffle(todo)
    queue = list(codes)
    while todo:
        r = c.rng
        cl = Cluster(exe, c.dir, seed=r.randrange(1 << 30), flags={"meta_client_retry_times": 2, "meta_client_retry_interval_secs": 3, "meta_client_timeout_ms": 7000}, threads=r.choice([1, 2, 3]))
        n, batch = 0, [todo.pop() for _ in range(min(len(todo), r.choice([1, 3, 6])))]
        nid = 0
        while (batch or cl.open or cl.pending) and not cl.crash and n < 400:
            n += 1
            x = r.random()
            if batch and (x < 0.3 or not (cl.open or cl.pending)):
                m = batch.pop(); nid += 1
                cl.cmd(do="start", id=nid, client="meta", m=m, a=meta_args(g, r, api[m]))
            elif cl.pending and x < 0.9:
                call = r.choice(list(cl.pending))
                e = cl.pending[call]
                y = r.random()
                if y < 0.22:
                    msg = "broken %d" % n
                    cl.cmd(do="fail", call=call, msg=msg)
                    # what was told of it comes first
                    continue
                rep = g.of(meta, rets[e["method"]])
                rep["code"] = "SUCCEEDED" if y < 0.55 else "E_LEADER_CHANGED" if y < 0.8 else queue.pop() if queue else r.choice(codes)
                kind = {"createSpace": "space_id", "createTag": "tag_id", "createEdge": "edge_type", "createTagIndex": "index_id", "createEdgeIndex": "index_id"}.get(e["method"])
                if kind: rep["id"] = {kind: g.num(32)}
                if e["method"] == "listSpaces":
                    for x in rep.get("spaces", []): x["id"] = {"space_id": g.num(32)}
                rep["leader"] = r.choice(["m1:1", "m2:2", "m3:3", "other:9", ""])
                cl.cmd(do="answer", call=call, reply=rep)
            else:
                cl.cmd(do="advance")
        cl.close()
        t = [meta_event(e, cl) for e in cl.ev if e["e"] != "new"]
        if cl.crash: raise vf.Violation("the client %s" % cl.crash, {"kind": "commands", "commands": cl.sent})
        t.append({"op": "end"})
        traces.append(t)
    c.validate_parallel("client/MetaCallsTrace", "MetaCallsTrace.cfg", traces, "calls to the meta service", show=lambda e: e)


def hexle(n): return (n & 0xffffffff).to_bytes(4, "little").hex()


def meta_event(e, cl):
    o = {"op": e["e"], "at": e["at"]}
    if e["e"] == "start":
        o.update(id=e["id"], m=e["m"], a=fields(e["a"]))
        if e["m"].endswith("DefaultValue"):
            f = e["a"]["field"]
            o["n"] = [e["a"]["space"] % (1 << 32) // 65536, e["a"]["space"] % 65536, e["a"]["id"] % (1 << 32) // 65536, e["a"]["id"] % 65536]
            o["hex"] = f[2:] if f.startswith("x:") else f.encode().hex()
        else: o["n"], o["hex"] = [], ""
    elif e["e"] == "call":
        o.update({k: e[k] for k in ("call", "service", "method", "host", "evb", "running", "timeout")}, req=fields(e["req"]))
    elif e["e"] == "answered":
        rp = e["reply"]
        o.update(call=e["call"], code=rp["code"] if not rp["code"].lstrip("-").isdigit() else "?", leader=rp["leader"], reply={"f": fields(rp), "all": flat(rp), "spaces": []})
        if "spaces" in rp: o["reply"]["spaces"] = [{"id": {"space_id": flat(s["id"].get("space_id"))}, "name": s["name"]} for s in rp["spaces"]]
    elif e["e"] == "failed": o.update(call=e["call"], msg=e["msg"])
    elif e["e"] == "done":
        o.update(id=e["id"], ok=e["ok"], s=e.get("s", ""), v=flat(e.get("v")), pairs=[])
        v = e.get("v")
        if isinstance(v, list) and v and all(isinstance(x, list) and len(x) == 2 for x in v): o["pairs"] = [[flat(a), b if isinstance(b, str) else flat(b)] for a, b in v]
    elif e["e"] == "advance": o["did"] = e["did"]
    return o


# ---------------------------------------------------------------- what the clients know of the cluster
KINDS = ["BOOL", "INT64", "VID", "FLOAT", "DOUBLE", "STRING", "FIXED_STRING", "INT8", "INT16", "INT32", "TIMESTAMP", "DATE", "DATETIME", "TIME"]
SCHEMA_Q = ["tagSchema", "edgeSchema", "smTagSchema", "smEdgeSchema", "allVerTag", "allVerEdge", "smAllVerTag", "smAllVerEdge", "latestTag", "latestEdge", "smLatestTag", "smLatestEdge", "tagVer", "edgeVer", "smTagVer", "smEdgeVer"]
OTHER_Q = ["spaceId", "spaceName", "vidLen", "vidType", "spaceDesc", "isolation", "tagId", "edgeType", "tagName", "edgeName", "allEdge", "partsMap", "partHosts", "partExist", "spaceExist", "partsNum",
           "tagIndexByName", "edgeIndexByName", "relatedTag", "relatedEdge", "tagIndex", "edgeIndex", "tagIndexes", "edgeIndexes", "tagIndexed", "edgeIndexed", "roles", "auth", "shadow", "term", "hosts", "leader", "leaderInfo",
           "listeners", "listenersByHost", "listenerHost", "listenerHosts", "ftClients", "ftIndexes", "ftBySpace", "ftBySchema", "ftByName"]
MANAGER_Q = ["smSpaceId", "smSpaceName", "smVidLen", "smVidType", "smTagId", "smEdgeType", "smTagName", "smEdgeName", "smAllEdge", "smPartsNum", "imTagIndexId", "imEdgeIndexId", "imTagIndex", "imEdgeIndex",
             "imTagIndexes", "imEdgeIndexes", "imTagIndexed", "imEdgeIndexed", "smFtClients", "smFtIndex"]
BARE = {"partsMap", "roles", "auth", "shadow", "term", "smTagSchema", "smEdgeSchema"}
STATUS_ONLY = {"partExist", "spaceExist", "tagIndexed", "edgeIndexed", "imTagIndexed", "imEdgeIndexed"}
BYSPACE = {"getPartsAlloc", "listTags", "listEdges", "listTagIndexes", "listEdgeIndexes", "listListener"}
HOSTS = ["10.0.0.1:9779", "10.0.0.2:9779", "10.0.0.3:9779", "10.0.0.4:9780"]


class Cache:
    def __init__(self, c, g, meta, exe, full):
        self.c, self.g, self.r, self.meta, self.full = c, g, c.rng, meta, full
        r = self.r
        self.role = r.choice(["STORAGE", "STORAGE", "GRAPH"]); self.listener = r.random() < 0.75
        self.local = "10.0.0.1:9779"; self.pause = r.choice([1, 10, 10, 60])
        self.path = c.dir + "/cluster.%d" % r.randrange(1 << 40)
        file = "0"
        if r.random() < 0.3: file = str(r.choice([77, 78])); open(self.path, "wb").write(int(file).to_bytes(8, "little"))
        cid = r.choice(["0", "0", "0", "79"])
        self.md = Metad(); self.md.time, self.md.cluster = 10, 77
        self.cl = Cluster(exe, c.dir, seed=r.randrange(1 << 30), flags={"meta_client_retry_times": 0, "heartbeat_interval_secs": self.pause, "cluster_id_path": self.path}, threads=r.choice([1, 2, 3]),
                          local=self.local, role=self.role, cluster=int(cid), listener=self.listener)
        self.t = [{"op": "new", "set": {"local": self.local, "role": self.role, "listener": self.listener, "pause": self.pause * 1000, "nap": 2000}, "file": file, "cid": cid}]
        self.seen = len(self.cl.ev); self.defaults = {}; self.who = ""; self.waited = False; self.stopped = False; self.nheld = 0; self.names = {}; self.nid = 0; self.beating = False; self.gone = []
        for v in (V.I(0), V.I(-7), V.S(b""), V.S(b"x\0y"), V.B(1), V.N(), V.F(1.5)):
            n = len(self.cl.ev); self.cl.cmd(do="encode", v=V.text(v)); self.defaults[len(self.defaults)] = self.cl.ev[n]["v"]
        self.seen = len(self.cl.ev)

    # ---- metad's own state
    def fresh(self, kind):
        return "%s%d" % (kind, self.r.randrange(6))
    def hosts(self): return self.r.sample(HOSTS, self.r.choice([1, 1, 2, 3]))
    def columns(self):
        r, cs = self.r, []
        n = r.choice([0, 1, 2, 3, 5, 9 if self.full else 4])
        if self.full and r.random() < 0.08: n = r.choice([17, 20, 33])
        may = 0.5 if n < 10 else 0.95
        for i in range(n):
            t = r.choice(KINDS); ty = {"type": t}
            if t == "FIXED_STRING": ty["type_length"] = r.choice([1, 8, 20, 32767])
            elif r.random() < 0.2: ty["type_length"] = r.choice([0, 3])
            col = {"name": enc(r.choice(["c%d" % i, "c%d" % i, "name", "\u00ff%d" % i, ""]) if r.random() < 0.5 else "k%d" % i), "type": ty}
            if col["name"] in [x["name"] for x in cs]: col["name"] = "u%d" % i
            if r.random() < may: col["nullable"] = r.random() < 0.7 + may / 5
            if r.random() < 0.3: col["default_value"] = r.choice(list(self.defaults.values()))
            if r.random() < 0.1: col["comment"] = self.g.text()
            cs.append(col)
        return cs
    def schema(self):
        r, p = self.r, {}
        if r.random() < 0.5: p["ttl_col"] = r.choice(["", "c0", "name"])
        if r.random() < 0.5: p["ttl_duration"] = r.choice([0, -1, 1, 100, 2000000000])
        if r.random() < 0.2: p["comment"] = self.g.text()
        return {"columns": self.columns(), "schema_prop": p}
    def element(self, s, kind):
        """A new tag or edge, or a new version of one, or one less."""
        r = self.r; xs = s[kind]
        idf, nf = ("tag_id", "tag_name") if kind == "tags" else ("edge_type", "edge_name")
        ids = sorted({x[idf] for x in xs})
        x = r.random()
        if ids and x < 0.15: d = r.choice(ids); s[kind] = [y for y in xs if y[idf] != d]; return
        if ids and x < 0.6:
            d = r.choice(ids); top = [y for y in xs if y[idf] == d][0]
            i = xs.index(top)
            xs.insert(i, {idf: d, nf: top[nf], "version": top["version"] + 1, "schema": self.schema()}); return
        n = self.fresh("T" if kind == "tags" else "E")
        if n in [y[nf] for y in xs]: return
        d = r.choice([q for q in range(1, 12) if q not in ids])
        new = [{idf: d, nf: n, "version": v, "schema": self.schema()} for v in range(r.choice([0, 0, 1, 2]), -1, -1)]
        at = r.choice([0, len(xs)]); xs[at:at] = new
    def index(self, s, kind):
        r = self.r; xs = s[kind]
        if xs and r.random() < 0.35: xs.pop(r.randrange(len(xs))); return
        f, src, idf = ("tag_id", "tags", "tag_id") if kind == "tagIndexes" else ("edge_type", "edges", "edge_type")
        of = r.choice([x[idf] for x in s[src]] or [5])
        n = self.fresh("I"); i = r.randrange(1, 12)
        if n in [x["index_name"] for x in xs] or i in [x["index_id"] for x in xs]: return
        x = {"index_id": i, "index_name": n, "schema_id": {f: of}, "schema_name": self.g.text(), "fields": self.columns()}
        if r.random() < 0.3: x["comment"] = self.g.text()
        xs.append(x)
    def mutate(self):
        r, md = self.r, self.md
        md.time += r.choice([1, 1, 3])
        x = r.random()
        if not md.spaces or x < 0.12:
            if len(md.spaces) > 3: return
            i = r.choice([k for k in range(1, 8) if k not in md.spaces]); n = self.fresh("s")
            if n in [s["name"] for s in md.spaces.values()]: return
            vid = {"type": r.choice(["INT64", "FIXED_STRING", "FIXED_STRING", "STRING", "INT8"])}
            if vid["type"] == "FIXED_STRING" or r.random() < 0.3: vid["type_length"] = r.choice([8, 20, 0, -1, 32])
            d = {"vid_type": vid, "replica_factor": r.choice([1, 3])}
            if r.random() < 0.4: d["isolation_level"] = r.choice(["DEFAULT", "TOSS"])
            if r.random() < 0.3: d["comment"] = self.g.text()
            md.spaces[i] = {"name": n, "parts": {p: self.hosts() for p in range(1, r.choice([1, 2, 3, 5]) + 1)}, "terms": None, "vid": vid["type"], "tags": [], "edges": [], "tagIndexes": [], "edgeIndexes": [], "listeners": [], "desc": d}
            for _ in range(r.choice([0, 2, 4])): self.element(md.spaces[i], r.choice(["tags", "edges"]))
            return
        if x < 0.17:
            most = max(md.spaces, key=lambda i: len([l for l in md.spaces[i]["listeners"] if l["host"] == self.local]))
            d = most if r.random() < 0.4 else r.choice(list(md.spaces))
            for kind, f in (("tags", "tag_id"), ("edges", "edge_type")): self.gone += [(d, kind, y[f]) for y in md.spaces[d][kind]]
            md.spaces.pop(d); return
        s = md.spaces[r.choice(list(md.spaces))]
        if x < 0.35:
            p = r.choice(list(s["parts"]))
            if r.random() < 0.15 and len(s["parts"]) > 1: s["parts"].pop(p)
            elif r.random() < 0.2: s["parts"][max(s["parts"]) + 1] = self.hosts()
            else: s["parts"][p] = self.hosts()
        elif x < 0.38: s["terms"] = r.choice([None, {p: r.choice([0, 1, 5, 1 << 40]) for p in s["parts"] if r.random() < 0.8}])
        elif x < 0.58: self.element(s, r.choice(["tags", "edges"]))
        elif x < 0.68: self.index(s, r.choice(["tagIndexes", "edgeIndexes"]))
        elif x < 0.80:
            ls = s["listeners"]
            if ls and r.random() < 0.4: ls.pop(r.randrange(len(ls)))
            else:
                l = {"type": r.choice(["ELASTICSEARCH", "ELASTICSEARCH", "UNKNOWN"]), "host": r.choice([self.local, self.local, "10.0.0.8:9789", HOSTS[1]]), "part_id": r.choice(list(s["parts"]) + [77]), "status": r.choice(["ONLINE", "OFFLINE"])}
                if not any((y["type"], y["host"], y["part_id"]) == (l["type"], l["host"], l["part_id"]) for y in ls): ls.append(l)
        elif x < 0.86:
            u = self.fresh("u")
            if u in md.users and r.random() < 0.4: md.users.pop(u)
            else:
                md.users[u] = self.g.text()
                md.roles[u] = [{"user_id": u, "space_id": r.choice([0, 1, 2]), "role_type": r.choice(["GOD", "ADMIN", "DBA", "USER", "GUEST"])} for _ in range(r.choice([0, 1, 2]))]
        elif x < 0.90:
            y = r.random()
            if y < 0.5: md.ftClients = [self.g.struct("meta", "FTClient") for _ in range(r.choice([0, 1, 2]))]
            else:
                md.ftIndexes = [[n, {"space_id": r.choice(list(md.spaces) + [9]), "depend_schema": r.choice([{"tag_id": r.randrange(1, 5)}, {"edge_type": r.randrange(1, 5)}]), "fields": [self.g.text() for _ in range(r.choice([0, 1, 2]))]}] for n in sorted({self.fresh("f") for _ in range(r.choice([0, 1, 2, 3]))})]
        else:
            lead = {}
            for sp in md.spaces.values():
                for p, hs in sp["parts"].items():
                    if r.random() < 0.7: lead.setdefault(r.choice(hs + HOSTS[:1]), {}).setdefault(sp["name"], []).append(p)
            for h in HOSTS:
                if r.random() < 0.2: lead.setdefault(h, {})
            hs = list(lead.items()); r.shuffle(hs); md.hosts = hs

    def reply(self, e):
        if e["method"] in BYSPACE and self.md.space(e["req"]) is None: return {"code": "E_SPACE_NOT_FOUND", "leader": ""}
        if e["method"] == "getSpace" and e["req"]["space_name"] not in [s["name"] for s in self.md.spaces.values()]: return {"code": "E_SPACE_NOT_FOUND", "leader": ""}
        return self.md.answer(e)

    # ---- what happened, as the specification reads it
    def key(self, e):
        m, q = e["method"], e["req"]
        return q["account"] if m == "getUserRoles" else str(q["space_id"]) if m in BYSPACE else q["space_name"] if m == "getSpace" else ""
    def body(self, m, x):
        cols = lambda cs: [{"name": k["name"], "type": k["type"]["type"], "len": k["type"].get("type_length", 0), "null": bool(k.get("nullable", False)), "def": k.get("default_value", "")} for k in cs]
        prop = lambda p: {"t": flat(p), "has": "ttl_col" in p, "col": p.get("ttl_col", ""), "dur": p.get("ttl_duration", 0)}
        union = lambda u: list(u.values())[0]
        if m == "heartBeat": return {"time": x["last_update_time_in_ms"], "cluster": str(x["cluster_id"])}
        if m == "listUsers": return [{"n": n, "p": p} for n, p in x["users"]]
        if m == "getUserRoles": return flat(x["roles"])
        if m == "listFTClients": return [flat(y) for y in x["clients"]]
        if m == "listFTIndexes": return [{"n": n, "s": y["space_id"], "of": union(y["depend_schema"]), "v": flat(y)} for n, y in x["indexes"]]
        if m == "listSpaces": return [{"k": str(y["id"]["space_id"]), "id": y["id"]["space_id"], "n": y["name"]} for y in x["spaces"]]
        if m == "listHosts": return [{"h": y["hostAddr"], "l": [{"n": n, "ps": ps} for n, ps in y["leader_parts"]]} for y in x["hosts"]]
        if m == "getPartsAlloc": return {"parts": [{"k": p, "v": hs} for p, hs in x["parts"]], "terms": [{"k": p, "v": str(v)} for p, v in x.get("terms", [])]}
        if m in ("listTags", "listEdges"):
            f, idf, nf = ("tags", "tag_id", "tag_name") if m == "listTags" else ("edges", "edge_type", "edge_name")
            return [{"id": y[idf], "name": y[nf], "ver": y["version"], "cols": cols(y["schema"]["columns"]), "prop": prop(y["schema"]["schema_prop"])} for y in x[f]]
        if m in ("listTagIndexes", "listEdgeIndexes"): return [{"id": y["index_id"], "name": y["index_name"], "of": union(y["schema_id"]), "v": flat(y)} for y in x["items"]]
        if m == "listListener": return [{"h": y["host"], "p": y["part_id"], "ty": y["type"]} for y in x["listeners"]]
        if m == "getSpace":
            d = x["item"]["properties"]
            return {"name": d["space_name"], "t": flat(d), "vid": d["vid_type"]["type"], "len": d["vid_type"].get("type_length", 0), "iso": d.get("isolation_level", "DEFAULT")}
        raise KeyError(m)
    def one(self, d):
        if d == "null": return {"no": "null"}
        if not self.full: return {"ver": d["ver"], "prop": flat(d["prop"]), "fields": [{k: f[k] for k in ("name", "type", "null", "def")} for f in d["fields"]]}
        t = d["ttl"]
        return {"ver": d["ver"], "n": d["n"], "nullable": d["nullable"], "size": d["size"], "ttl": {"ok": True, "col": t[0], "dur": t[1]} if isinstance(t, list) else {"ok": False, "col": "", "dur": 0}, "prop": flat(d["prop"]),
                "no": d["no"] == [-1, True, True, True, True, True, "UNKNOWN", "UNKNOWN"],
                "fields": [{"name": f["name"], "type": f["type"], "null": f["null"], "size": f["size"], "off": f["off"], "pos": f.get("pos", 0), "def": f["def"], "byIndex": f["byIndex"], "byName": f["byName"], "index": f["index"],
                            "nameAt": f["nameAt"], "typeAt": f["typeAt"], "typeOf": f["typeOf"]} for f in d["fields"]]}
    def value(self, m, v):
        k = m[2:3].lower() + m[3:] if m[:2] in ("sm", "im") and m[2:3].isupper() else m
        if k in ("tagSchema", "edgeSchema"): return self.one(v)
        if k in ("allVerTag", "allVerEdge"): return [{"t": t, "v": [self.one(y) for y in ys]} for t, ys in v]
        if k in ("latestTag", "latestEdge"): return [{"t": t, "v": self.one(y)} for t, y in v]
        if k == "partsMap": return [{"s": s, "p": p, "hs": x[2]} if (s, p) == (x[0], x[1]) else {"s": -1, "p": -1, "hs": []} for s, ps in v for p, x in ps]
        if k == "partHosts": return {"s": v[0], "p": v[1], "hs": v[2]}
        if k in ("tagIndex", "edgeIndex", "tagIndexByName", "edgeIndexByName", "spaceDesc", "roles", "ftByName"): return flat(v)
        if k in ("tagIndexes", "edgeIndexes", "ftClients"): return [flat(x) for x in v]
        if k == "term": return str(v)
        if k == "leaderInfo": return [{"s": s, "p": p, "h": h} for s, p, h in v]
        if k == "listeners": return [{"p": p, "ty": ty} for p, ty in v]
        if k == "listenersByHost": return [{"s": s, "p": p, "ty": x[0], "hs": x[1]} for s, ps in v for p, xs in ps for x in xs]
        if k == "listenerHosts": return [{"h": h, "ty": ty} for h, ty in v]
        if k in ("ftIndexes", "ftBySpace"): return [{"n": n, "v": flat(x)} for n, x in v]
        if k in ("ftBySchema", "ftIndex"): return {"n": v[0], "v": flat(v[1])}
        return v
    def run(self, **k):
        self.cl.cmd(**k)
        while self.seen < len(self.cl.ev):
            e = self.cl.ev[self.seen]; self.seen += 1
            x = self.event(e)
            if x: self.t.append(x)
    def event(self, e):
        k = e["e"]
        if k == "call":
            q = e["req"]
            self.names[e["call"]] = e["method"]
            if e["method"] == "heartBeat":
                if not self.who: self.beating = True
                r = {"role": q["role"], "host": q["host"], "sha": q["git_info_sha"], "cluster": str(q["cluster_id"]), "lead": flat(q["leader_partIds"]) if "leader_partIds" in q else ""}
            else: r = 0
            return {"op": k, "call": e["call"], "method": e["method"], "k": self.key(e), "at": e["at"], "r": r}
        if k == "answered":
            m, x = self.names[e["call"]], e["reply"]
            return {"op": k, "call": e["call"], "method": m, "code": x["code"], "at": e["at"], "r": self.body(m, x) if x["code"] == "SUCCEEDED" else {"time": 0, "cluster": "0"} if m == "heartBeat" else 0}
        if k == "failed": return {"op": k, "call": e["call"], "at": e["at"]}
        if k == "slept": return {"op": k, "ms": e["ms"]}
        if k == "on":
            a, m = e["a"], e["m"]
            t = {"m": m, "s": a[0], "p": 0, "b": False, "ty": "", "hs": [], "rs": []}
            if m.startswith("Space"): t["b"] = a[1]
            elif m == "PartRemoved": t["p"] = a[1]
            elif m.startswith("Part"): t.update(p=a[1], hs=a[2])
            elif m == "ListenerAdded": t.update(p=a[1], b=True, ty=a[2][0], hs=a[2][1])
            elif m == "ListenerRemoved": t.update(p=a[1], b=True, ty=a[2])
            else: t.update(p=a[1], rs=a[2])
            return {"op": "on", "t": t}
        if k == "ready": self.who = ""; return {"op": "ret", "v": e["v"], "at": e["at"]} if isinstance(e["v"], bool) else {"op": "stuck"}
        if k == "refresh": self.who = ""; return {"op": "ret", "v": e["ok"], "at": e["at"]} if "ok" in e else {"op": "stuck"}
        if k == "q":
            q, m = self.asked, e["m"]
            ok = True if m in BARE else e["ok"]
            return {"op": "q", "q": q, "ok": ok, "c": 0 if ok else e["c"], "v": (0 if m in STATUS_ONLY else self.value(m, e["v"])) if ok else 0}
        if k == "advance": return {"op": k, "did": e["did"], "at": e["at"]}
        if k == "hold": return {"op": k, "s": self.asked[0], "kind": self.asked[1], "t": self.asked[2], "v": self.one(e["v"])}
        if k == "held": return {"op": k, "k": e["k"] + 1, "v": self.one(e["v"])}
        if k == "stuck": raise vf.Violation("the client waits for nothing", {"kind": "trace", "trace": self.t, "commands": self.cl.sent})

    def pick(self):
        """Arguments that mostly name something metad knows, or once did."""
        r = self.r; sp = self.md.spaces
        s = r.choice(list(sp) * 3 + [1, 2, 9]); x = sp.get(s) or {"tags": [], "edges": [], "tagIndexes": [], "edgeIndexes": [], "listeners": [], "parts": {1: 0}}
        some = lambda xs, d: r.choice(xs) if xs and r.random() < 0.85 else d
        return s, x, some
    def ask(self, m):
        r = self.r; s, x, some = self.pick()
        edge = "dge" in m
        ix = "edgeIndexes" if edge else "tagIndexes"
        a = {"s": s, "t": r.randrange(1, 12), "p": some(list(x["parts"]), r.choice([0, 77])), "n": "none", "h": r.choice(HOSTS[:2] + ["10.0.0.8:9789"]), "ty": r.choice(["ELASTICSEARCH", "ELASTICSEARCH", "UNKNOWN"]), "ver": r.choice([-1, -1, 0, 0, 1, 2, 5])}
        if "ndex" in m and not m.startswith(("ft", "smFt")):
            if m.endswith("Indexed"): a["t"] = some([y["index_id"] for y in x[ix]], a["t"])
            a["t"] = some([y["index_id"] for y in x[ix]], a["t"]); a["n"] = some([y["index_name"] for y in x[ix]], self.fresh("I"))
        elif "agId" in m or m in ("edgeType", "smEdgeType"): a["n"] = some([y["edge_name" if edge else "tag_name"] for y in x["edges" if edge else "tags"]], self.fresh("T"))
        elif m in ("relatedTag", "relatedEdge"): a["n"] = some([y["index_name"] for y in x[ix]], self.fresh("I"))
        elif "paceId" in m: a["n"] = some([y["name"] for y in self.md.spaces.values()], self.fresh("s"))
        elif ("ag" in m or edge) and self.gone and r.random() < 0.15:
            xs = [y for y in self.gone if y[1] == ("edges" if edge else "tags")] or self.gone
            a["s"], _, a["t"] = r.choice(xs[-4:])
        elif "ag" in m or edge: a["t"] = some([y["edge_type" if edge else "tag_id"] for y in x["edges" if edge else "tags"]], a["t"])
        elif m in ("roles", "auth", "shadow"): a["n"] = some(list(self.md.users), self.fresh("u"))
        elif m.startswith(("ft", "smFt")): a["n"] = some([n for n, _ in self.md.ftIndexes], self.fresh("f")); a["t"] = r.randrange(1, 5); a["s"] = some([y["space_id"] for _, y in self.md.ftIndexes], s)
        elif m in ("listenerHost", "listenerHosts", "listeners"):
            if x["listeners"] and r.random() < 0.8: y = r.choice(x["listeners"]); a.update(p=y["part_id"], ty=y["type"], h=y["host"])
        w = ""
        d = dict(a)
        if m == "auth": w = some([self.md.users.get(a["n"], "")], self.g.text()); d["p"] = w
        self.asked = dict(a, m=m, w=w)
        self.run(do="q", m=m, a=d)
    def hold(self):
        s, x, some = self.pick()
        kind = self.r.choice(["tags", "edges"])
        t = some([y["tag_id" if kind == "tags" else "edge_type"] for y in x[kind]], 3)
        self.asked = (s, kind, t); self.nheld += 1
        self.run(do="hold", s=s, t=t, edge=kind == "edges")

    def query(self):
        r = self.r
        if self.full:
            x = r.random()
            self.ask(r.choice(SCHEMA_Q) if x < 0.8 else r.choice(MANAGER_Q) if x < 0.95 else r.choice(OTHER_Q))
        else: self.ask(r.choice(OTHER_Q) if r.random() < 0.75 else r.choice(SCHEMA_Q + MANAGER_Q))

    def story(self, steps, rough):
        r, cl = self.r, self.cl
        for _ in range(r.choice([0, 5, 20, 60])): self.mutate()
        while steps > 0 and not cl.crash:
            steps -= 1
            x = r.random()
            if cl.pending:
                if x < 0.78:
                    k = r.choice(list(cl.pending)); e = cl.pending[k]
                    bad = rough if e["method"] != "heartBeat" else rough * 4
                    y = r.random()
                    if self.beating and e["method"] == "heartBeat": self.beating = False
                    if y < bad: self.run(do="fail", call=k, msg="broken")
                    elif y < bad * 2: self.run(do="answer", call=k, reply={"code": r.choice(["E_LEADER_CHANGED", "E_LEADER_CHANGED", "E_SPACE_NOT_FOUND", "E_UNKNOWN", "E_WRONGCLUSTER", "E_NO_HOSTS"]), "leader": r.choice(["m1:1", "m3:3", ""])})
                    else: self.run(do="answer", call=k, reply=self.reply(e))
                elif x < 0.86: self.query()
                elif x < 0.88 and self.nheld: self.run(do="held", k=r.randrange(self.nheld))
                elif x < 0.885 and self.who == "wait" and not self.stopped: self.stopped = True; self.t.append({"op": "stop"}); self.run(do="stop")
                else: self.mutate()
                continue
            if self.stopped and self.who == "" and x > 0.3: break
            if self.t[-1]["op"] in ("ret", "advance", "on", "answered") and r.random() < 0.6:
                for _ in range(r.choice([3, 12, 30])): self.query()
                continue
            if x < 0.12: self.mutate()
            elif x < 0.60: self.query()
            elif x < 0.63: self.hold()
            elif x < 0.66:
                if self.nheld: self.run(do="held", k=r.randrange(self.nheld))
            elif x < 0.70:
                v = [[s, [{"part_id": p, "term": r.choice([0, 1, 9])} for p in sorted(r.sample(range(1, 6), r.choice([0, 1, 2])))]] for s in sorted(r.sample(range(1, 6), r.choice([0, 1, 2])))]
                if self.listener: self.t.append({"op": "leaders", "v": flat(v)}); self.run(do="leaders", v=v)
            elif self.stopped: continue
            elif x < 0.82:
                self.nid += 1
                if not self.waited:
                    wait = r.random() < 0.5
                    n = r.choice([-1, 0, 1, 2, 3]) if wait else 0
                    self.waited = wait; self.who = "wait" if wait else "ready"
                    self.t.append({"op": "do", "who": self.who, "tries": n}); self.run(do="ready", id=self.nid, **({"wait": n} if wait else {}))
                elif r.random() < 0.7:
                    self.who = "refresh"; self.t.append({"op": "do", "who": "refresh", "tries": 0}); self.run(do="refresh", id=self.nid)
            elif x < 0.985: self.run(do="advance")
            elif r.random() < 0.3: self.stopped = True; self.t.append({"op": "stop"}); self.run(do="stop")
        # what is still going on comes to an end
        n = 400
        while (cl.pending or self.who) and not cl.crash and n > 0:
            n -= 1
            if cl.pending:
                k = r.choice(list(cl.pending)); self.run(do="answer", call=k, reply=self.reply(cl.pending[k]))
            else: break
        for m in r.sample(OTHER_Q + SCHEMA_Q + MANAGER_Q, 12):
            if not cl.crash: self.ask(m)
        for k in range(self.nheld):
            if not cl.crash: self.run(do="held", k=k)

    def finish(self):
        self.cl.close()
        if self.cl.crash: raise vf.Violation("the client %s" % self.cl.crash, {"kind": "commands", "commands": self.cl.sent})
        file = "0"
        if os.path.exists(self.path):
            b = open(self.path, "rb").read(); os.unlink(self.path)
            file = str(int.from_bytes(b, "little", signed=True)) if len(b) == 8 else "%d bytes" % len(b)
        return self.t + [{"op": "end", "file": file}]


def worlds(c, full, n, steps):
    exe = os.environ.get("VF_CLIENT") or build(c)
    p = minithrift.Parser(vf.SRC + "/common/interface")
    g = Gen(p, c.rng)
    meta = p.load("meta")
    traces = []
    for i in range(n):
        w = Cache(c, g, meta, exe, full)
        w.story(c.rng.choice(steps), c.rng.choice([0, 0, 0, 0.005, 0.02, 0.06]))
        traces.append(w.finish())
    return traces


def cache(c):
    c.tlc("client/CacheMC", "CacheMC.cfg", workers=4)
    c.validate_parallel("client/CacheTrace", "CacheTrace.cfg", worlds(c, False, 400 if c.thorough else 60, [100, 300, 700]), "what the client knows of the cluster", show=lambda e: e)


def schema(c):
    c.validate_parallel("client/CacheTrace", "SchemaTrace.cfg", worlds(c, True, 400 if c.thorough else 60, [100, 200, 500]), "schemas of the client", show=lambda e: e)


# ---------------------------------------------------------------- settings kept at the meta service (C29)
FLAGS = {"vs_i32": "int32", "vs_i64": "int64", "vs_u32": "uint32", "vs_u64": "uint64", "vs_bool": "bool", "vs_dbl": "double", "vs_str": "string", "vs_str2": "string", "vs_map": "string", "vs_map2": "string", "rocksdb_db_options": "string"}
MAPS = ["vs_map", "vs_map2", "rocksdb_db_options"]
WORDS = [b"", b"1", b"64", b"true", b"a b", b"x:y", b"path/to", b"0.5", b"{", b"tab\there", b"q\"uote", b"back\\slash", "\u00fc".encode(), b"-3"]
KEYS_ = [b"a", b"b", b"max_jobs", b"ttl", b"k k", b"q\"k", b""]
def decimal(x): return str(int(x)) if x == int(x) else repr(x)


class Settings:
    def __init__(self, c, exe):
        self.c, self.r, self.dir = c, c.rng, c.dir
        r = self.r
        self.md = Metad(); self.md.time, self.md.cluster = 10, 77
        self.mode = self.dir + "/mode.%d.json" % r.randrange(1 << 40)
        module, pid = r.choice([("GRAPH", "pids/nebula-graphd.pid"), ("STORAGE", "pids/nebula-storaged.pid"), ("STORAGE", "nebula-storaged.pid"), ("META", "/x/nebula-metad"), ("UNKNOWN", "pids/other.pid")] if r.random() < .5 else [("STORAGE", "pids/nebula-storaged.pid")])
        mutable, nested = r.sample([n for n in FLAGS if n not in MAPS[:2]], r.randrange(9)), r.sample(MAPS, r.randrange(4))
        if r.random() < .2: mutable.append(r.choice(MAPS))
        if r.random() < .3: mutable.append("no_such_flag")
        x = r.random()
        if x < .12: mutable, nested = [], []
        elif x < .18: mutable, nested = [], []; open(self.mode, "w").write(r.choice(["{", "", "MUTABLE"]))
        else:
            m = {"MUTABLE": mutable, "NESTED": nested, "other": 1}
            for k in ("MUTABLE", "NESTED"):
                if not m[k] and r.random() < .5: del m[k]
            open(self.mode, "w").write(("# the mode of each flag\n" if r.random() < .5 else "") + json.dumps(m))
        self.mutable, self.nested = mutable, nested
        self.listener = r.random() < .8; self.module = module
        self.cl = Cluster(exe, c.dir, seed=r.randrange(1 << 30), flags={"meta_client_retry_times": 0, "heartbeat_interval_secs": 10, "gflags_mode_json": self.mode, "cluster_id_path": self.mode + ".id"}, threads=r.choice([1, 2]),
                          local="10.0.0.1:9779", role="GRAPH", skip=False, listener=self.listener, pid=pid)
        self.seen = len(self.cl.ev); self.cl.cmd(do="flags"); f = self.cl.ev[self.seen]["v"] if not self.cl.crash else []; self.seen = len(self.cl.ev)
        self.t = [{"op": "new", "module": module, "listener": self.listener, "mutable": mutable, "nested": nested, "flags": self.dump(f)}]
        self.items = {}; self.who = ""; self.waited = False; self.names = {}; self.nid = 0; self.probe = None

    def dump(self, v): return [{"n": n, "ty": t, "s": list(dec(x))} for n, t, x in v]
    def value(self, text):
        v = V.parse(text)
        if v[0] == "M": return {"t": "map", "m": [dict(self.value(V.text(x)), k=list(k)) for k, x in v[1].items()]}
        if v[0] == "S": return {"t": "str", "s": list(v[1])}
        if v[0] == "B": return {"t": "bool", "s": list(b"true" if v[1] else b"false")}
        if v[0] == "F": return {"t": "float", "s": list(decimal(v[1]).encode())}
        return {"t": "int", "s": list(str(v[1]).encode())}
    def some_map(self):
        r = self.r
        return V.M() if r.random() < .15 else ("M", {k: (V.S(r.choice(WORDS)) if r.random() < .9 else V.I(r.randrange(100))) for k in r.sample(KEYS_, r.choice([1, 1, 2, 3]))})
    def a_value(self, n):
        r, ty = self.r, FLAGS.get(n, "int32")
        if n in MAPS: return self.some_map() if r.random() < .9 else V.S(r.choice(WORDS))
        if ty == "string": return V.S(r.choice(WORDS))
        if ty == "bool": return V.B(r.randrange(2))
        if ty == "double": return V.F(r.choice([0.5, -2.25, 100.0, 1e6, 0.0]))
        if r.random() < .08: return V.S(r.choice([b"17", b"abc", b"-9", b""]))
        return V.I(r.choice([0, 1, 2, 7, 100, 999999999, -1, -40] + ([10 ** 11] if ty.endswith("32") else [10 ** 17])))
    def config_change(self):
        r = self.r
        self.md.time += r.randrange(1, 4)
        for _ in range(r.choice([1, 1, 2, 4])):
            n = r.choice(list(FLAGS) + MAPS * 2 + ["no_such_flag"])
            if r.random() < .1: self.items.pop(n, None)
            else: self.items[n] = {"module": self.module, "name": n, "mode": r.choice(["MUTABLE"] * 9 + ["IMMUTABLE", "REBOOT", "IGNORED"]), "value": V.text(self.a_value(n))}
    def run(self, **k):
        self.cl.cmd(**k)
        while self.seen < len(self.cl.ev):
            e = self.cl.ev[self.seen]; self.seen += 1
            x = self.event(e)
            if x: self.t.append(x)
    def entries(self, items): return [{"module": x["module"], "n": bytes(dec(x["name"])).decode("latin1"), "mode": x["mode"], "v": self.value(x["value"])} for x in items]
    def event(self, e):
        k = e["e"]
        if k == "call":
            m, q = e["method"], e["req"]; self.names[e["call"]] = m
            if m == "heartBeat": return {"op": "beat"}
            if m == "regConfig": return {"op": "reg", "items": self.entries(q["items"])}
            if m == "listConfigs": return {"op": "list", "module": q["module"]}
            if m == "getConfig": self.probe = True; return None
            return {"op": "data"}
        if k in ("answered", "failed"):
            m = self.names[e["call"]]; x = e.get("reply", {}); ok = k == "answered" and x["code"] == "SUCCEEDED"
            if m == "getConfig": return None
            if m == "heartBeat": return {"op": "beaten", "ok": ok, "time": x["last_update_time_in_ms"] if ok else 0}
            if m == "regConfig": return {"op": "reged", "ok": ok}
            if m == "listConfigs": return {"op": "listed", "ok": ok, "items": self.entries(x["items"]) if ok else []}
            return {"op": "had", "ok": ok, "spaces": m == "listSpaces", "ids": [y["id"]["space_id"] for y in x["spaces"]] if ok and m == "listSpaces" else []}
        if k == "on": return {"op": "option", "s": e["a"][0], "o": [[list(dec(p[0])), list(dec(p[1]))] for p in e["a"][1]]} if e["m"] == "SpaceOptionUpdated" else None
        if k == "flags": return {"op": "flags", "v": self.dump(e["v"])}
        if k == "done": self.probe = self.probe or ("" if "Not ready" in e.get("s", "") else "odd: %r" % e)
        if k in ("slept", "advance"): return {"op": "idle"}
        if k == "ready":
            self.who = ""
            if isinstance(e["v"], bool): return {"op": "ret"}
        if k == "stuck" or k == "ready": raise vf.Violation("the client waits for nothing", {"kind": "trace", "trace": self.t, "commands": self.cl.sent})
    def answer(self, rough):
        r, cl = self.r, self.cl
        k = r.choice(list(cl.pending)); e = cl.pending[k]; m = e["method"]
        x = r.random()
        alone = m in ("heartBeat", "listUsers", "listSpaces", "regConfig", "listConfigs")
        if alone and x < rough: self.run(do="fail", call=k, msg="broken"); return
        if alone and m != "heartBeat" and x < 2 * rough: self.run(do="answer", call=k, reply={"code": r.choice(["E_UNKNOWN", "E_INVALID_HOST", "E_STORE_FAILURE"]), "leader": ""}); return
        if m in BYSPACE and self.md.space(e["req"]) is None: rep = {"code": "E_SPACE_NOT_FOUND", "leader": ""}
        elif m == "listConfigs": its = list(self.items.values()); r.shuffle(its); rep = {"code": "SUCCEEDED", "leader": "", "items": its}
        elif m == "getConfig": rep = {"code": "SUCCEEDED", "leader": "", "items": []}
        else: rep = self.md.answer(e)
        self.run(do="answer", call=k, reply=rep)
    def local(self):
        r = self.r
        n = r.choice(list(FLAGS))
        if n in MAPS: s = json.dumps({k.decode("utf8"): r.choice(["1", "x", 5]) for k in r.sample(KEYS_, r.randrange(3))}) if r.random() < .8 else r.choice(["", "not json", "{"])
        else: s = {"string": r.choice(["", "here", "a=b"]), "bool": r.choice(["true", "false"]), "double": r.choice(["0.5", "3", "-2.25"])}.get(FLAGS[n], r.choice(["0", "12", "100"]))
        self.t.append({"op": "setflag", "n": n, "v": list(s.encode())}); self.run(do="setflag", n=n, v=enc(s.encode()))
    def story(self, steps, rough):
        r, cl = self.r, self.cl
        for _ in range(r.randrange(4)): self.config_change()
        for i in r.sample([1, 2, 3], r.randrange(4)): self.md.spaces[i] = {"name": "s%d" % i, "parts": {1: ["h1:1"]}, "terms": None, "vid": "INT64"}
        for _ in range(r.choice([0, 0, 3])): self.local()
        while steps > 0 and not cl.crash:
            steps -= 1; x = r.random()
            if cl.pending:
                if x < .08: self.config_change()
                elif x < .1: self.local()
                else: self.answer(rough)
                continue
            if x < .25: self.config_change()
            elif x < .4: self.run(do="flags")
            elif x < .46: self.local()
            elif x < .5:
                self.nid += 1; self.probe = None
                self.run(do="start", id=self.nid, client="meta", m="getConfig", a={"item.module": "STORAGE", "item.name": "q"})
                while cl.pending: self.answer(0)
                if isinstance(self.probe, str) and self.probe: raise vf.Violation("asking for a setting: " + self.probe, {"kind": "trace", "trace": self.t})
                self.t.append({"op": "getconfig", "ready": self.probe is True})
            elif x < .55 and len(self.md.spaces) < 4:
                i = r.randrange(1, 5); self.md.time += 1
                if i in self.md.spaces: del self.md.spaces[i]
                else: self.md.spaces[i] = {"name": "s%d" % i, "parts": {1: ["h1:1"]}, "terms": None, "vid": "INT64"}
            elif not self.waited:
                self.nid += 1
                self.who = "wait"; self.waited = True
                self.t.append({"op": "do", "who": self.who}); self.run(do="ready", id=self.nid, **({"wait": r.choice([-1, 1, 3])} if self.waited else {}))
            else: self.run(do="advance")
        n = 300
        while cl.pending and not cl.crash and n: n -= 1; self.answer(0)
        if not cl.pending: self.run(do="flags")
    def finish(self):
        self.cl.close()
        if self.cl.crash: raise vf.Violation("the client %s" % self.cl.crash, {"kind": "commands", "commands": self.cl.sent})
        for f in (self.mode, self.mode + ".id"):
            if os.path.exists(f): os.unlink(f)
        return self.t


def settings(c):
    c.tlc("client/SettingsMC", "SettingsMC.cfg", workers=4)
    exe = os.environ.get("VF_CLIENT") or build(c)
    traces = []
    for i in range(500 if c.thorough else 90):
        w = Settings(c, exe)
        w.story(c.rng.choice([60, 150, 300]), c.rng.choice([0, 0, .03, .1]))
        traces.append(w.finish())
    c.validate_parallel("client/SettingsTrace", "SettingsTrace.cfg", traces, "settings of the process", show=lambda e: e)
