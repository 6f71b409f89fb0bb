"""Configuration: recorded calls validated against specs/conf (C27)."""
import concurrent.futures, json, os, shutil, tempfile
import vf
SRC = ["common/conf/Configuration.cpp", "common/base/Status.cpp", vf.VERIF + "/shim/json_impl.cpp"]
KEYS = ["a", "b", "int", "x//y", "#k", "", "k\u00e9", "q\"q", "b\\", "long name"]
STR = ["", "a", "true", "false", "1", "0", "42", "-7", "hello", "http://host:1/p", "#1", "a # b", "say \"hi\" // there", "back\\", "\\\"#", "\u00e9\u4e2d", "tab\there", "line\nbreak", "/", "//", "g"]


def scalar(r):
    x = r.random()
    if x < .3: return r.choice([0, 1, -1, 7, 42, -100000, 999999])
    if x < .5: return r.choice([1.5, -0.25, 3.0, 2.125, 100.0, 0.5])
    if x < .65: return r.random() < .5
    if x < .93: return r.choice(STR)
    return None


def tree(r, d):
    x = r.random()
    if d <= 0 or x < .5: return scalar(r)
    if x < .75:
        n = r.choice([0, 1, 2, 3])
        k = r.random()
        if k < .5: return [r.choice([scalar(r), r.choice(STR)]) for _ in range(n)]
        one = r.choice([lambda: r.choice([1, 2, -3, 40]), lambda: r.random() < .5, lambda: r.choice(STR), lambda: r.choice([.5, 1.5, 4.0]), lambda: r.choice([1, True, 4.0, "17", 0, False]), lambda: tree(r, d - 1)])
        return [one() for _ in range(n)]
    return {r.choice(KEYS): tree(r, d - 1) for _ in range(r.choice([0, 1, 2, 3]))}


def string(r, s):
    out = '"'
    for ch in s:
        if ch in '"\\': out += "\\" + ch
        elif ch == "\n": out += "\\n"
        elif ch == "\t": out += "\\t"
        elif ch == "/" and r.random() < .1: out += "\\/"
        elif r.random() < .04: out += "\\u%04x" % ord(ch)
        else: out += ch
    return out + '"'


def text(r, v, sp):
    if v is None: return "null"
    if v is True: return "true"
    if v is False: return "false"
    if isinstance(v, str): return string(r, v)
    if isinstance(v, (int, float)): return repr(v)
    if isinstance(v, list): return "[" + ",".join(sp() + text(r, x, sp) + sp() for x in v) + (sp() if not v else "") + "]"
    return "{" + ",".join(sp() + string(r, k) + sp() + ":" + sp() + text(r, x, sp) + sp() for k, x in v.items()) + (sp() if not v else "") + "}"


def written(r, file):
    v = {r.choice(KEYS): tree(r, 2) for _ in range(r.choice([0, 1, 2, 3, 5]))}
    if r.random() < .06: v = tree(r, 1)
    comment = lambda: r.choice(["// a remark", "# another", "#", "//", "// \"quoted # // remark\"", "#}{][", "//\\\"", "# it's // nested"])
    nl = r.choice(["\n"] * 8 + ["\r\n", "\r"])

    def sp():
        x = r.random()
        if file and x < .12: return r.choice(["", " ", "\t"]) + comment() + nl
        return "" if x < .6 else r.choice([" ", "  ", "\t", nl, nl + "    "])
    s = sp() + text(r, v, sp) + sp()
    if file and r.random() < .2: s += comment() + r.choice(["", nl])
    if r.random() < .15:
        for _ in range(r.choice([1, 1, 2])):
            i = r.randrange(len(s) + 1)
            x = r.random()
            if x < .5: s = s[:i] + s[i + 1:]
            else: s = s[:i] + r.choice('{}[],:"/#\n \\') + s[i:]
    return s[:400], v




def hx(s): return '"' + s.encode("utf8").hex() + '"'


def script(r, n):
    ev, names = [], {1: set(KEYS[:3]), 2: set(KEYS[:3]), 3: set(KEYS[:3])}
    arrs, types = {1: [], 2: [], 3: []}, {1: {}, 2: {}, 3: {}}
    kinds = {bool: "bool", int: "int", float: "double", str: "str", dict: "sub"}
    for _ in range(n):
        c = r.choice([1, 1, 1, 2, 3]); x = r.random()
        k = r.choice(sorted(names[c])) if names[c] and r.random() < .85 else r.choice(KEYS)
        if x < .12:
            t, v = written(r, False)
            ev.append({"op": "text", "c": c, "text": t})
        elif x < .3:
            m = r.choice(["file"] * 14 + ["missing", "dir", "below"])
            t, v = written(r, True) if r.random() < .96 else ("", None)
            ev.append({"op": "file", "c": c, "mode": m, "text": t if m == "file" else ""})
            if m != "file": v = None
        elif x < .32: ev.append({"op": "fresh", "c": c}); continue
        elif x < .62 and types[c] and r.random() < .7:
            k, kind = r.choice(sorted(types[c].items()))
            if kind != "sub": ev.append({"op": "fetch", "c": c, "k": k, "kind": kind, "was": r.randrange(2)}); continue
            to = r.choice([1, 2, 3]); ev.append({"op": "sub", "c": c, "k": k, "to": to})
            if to != c: names[to] |= set(r.sample(KEYS, 3))
            continue
        elif x < .55: ev.append({"op": "fetch", "c": c, "k": k, "kind": r.choice(["int", "double", "bool", "str"]), "was": r.randrange(2)}); continue
        elif x < .63:
            to = r.choice([1, 2, 3]); ev.append({"op": "sub", "c": c, "k": k, "to": to})
            names[to] |= set(r.sample(KEYS, 3)); continue
        elif x < .80:
            if arrs[c] and r.random() < .85: k = r.choice(arrs[c])
            ev.append({"op": "array", "c": c, "k": k, "kind": r.choice(["int", "double", "bool", "str"]), "was": r.randrange(2)}); continue
        elif x < .86: ev.append({"op": "upsert", "c": c, "k": k, "s": r.choice(STR)}); names[c].add(k); continue
        elif x < .90: ev.append({"op": "dump", "c": c}); continue
        elif x < .94: ev.append({"op": "keys", "c": c}); continue
        elif x < .98: ev.append({"op": "items", "c": c}); continue
        else: ev.append({"op": "stop", "c": c, "at": r.choice([1, 1, 2, 4]), "was": r.randrange(2)}); continue
        if isinstance(v, dict):
            types[c] = {q: kinds[type(y)] for q, y in v.items() if type(y) in kinds}
            names[c] = set(v); arrs[c] = [q for q, y in v.items() if isinstance(y, list)]
    return ev


def line(e):
    o, c = e["op"], e["c"]
    if o == "text": return "text %d %s" % (c, hx(e["text"]))
    if o == "file": return "file %d %s %s" % (c, e["mode"], hx(e["text"]))
    if o in ("fetch", "array"): return "%s %d %s %s %d" % (o, c, hx(e["k"]), e["kind"], e["was"])
    if o == "sub": return "sub %d %s %d" % (c, hx(e["k"]), e["to"])
    if o == "upsert": return "upsert %d %s %s" % (c, hx(e["k"]), hx(e["s"]))
    if o == "stop": return "stop %d %d %d" % (c, e["at"], e["was"])
    return "%s %d" % (o, c)


def show(e):
    def t(x): return bytes(x).decode("utf8", "replace") if isinstance(x, list) and all(isinstance(y, int) and not isinstance(y, bool) for y in x) else [t(y) for y in x] if isinstance(x, list) else {k: t(y) for k, y in x.items()} if isinstance(x, dict) else x
    return {k: t(x) for k, x in e.items()}


def body(c):
    exe = c.build("conf", [vf.VERIF + "/harness/conf_driver.cpp"] + SRC, shim=True)
    work = [script(c.rng, 50) for _ in range(800 if c.thorough else 200)]
    tmp = tempfile.mkdtemp(prefix="vfconf")

    def go(a):
        i, t = a
        d = "%s/%d" % (tmp, i); os.mkdir(d)
        return c.drive(exe, ["reset"] + [line(e) for e in t], 60, [d])
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex: outs = list(ex.map(go, enumerate(work)))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    recs = []
    for t, (out, crash) in zip(work, outs):
        if crash or len(out) < len(t) + 1:
            k = min(max(len(out) - 1, 0), len(t) - 1)
            raise vf.Violation("configuration: %s: %s" % (t[k], crash), {"kind": "replay", "driver": "conf", "script": ["reset"] + [line(e) for e in t[:k + 1]], "why": str(crash)})
        rec = []
        for e, o in zip(t, out[1:]):
            d = {k: list(x.encode("utf8")) if k in ("text", "k", "s") else x for k, x in e.items()}
            d.update(json.loads(o))
            rec.append(d)
        recs.append(rec)
    c.validate_parallel("conf/ConfTrace", "Trace.cfg", recs, what="configuration", show=show)
    c.samples = [{"trace": [show(e) for e in recs[len(recs) // 2][:10]]}]
    c.assumptions += ["the JSON parser itself (folly's, here a stand-in) reads JSON as RFC 8259 has it", "files are read whole while nobody changes them, and hold no NUL bytes"]
