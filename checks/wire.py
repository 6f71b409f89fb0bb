"""C40: what travels between peers."""
import json, os, re
import vf
import vals as v
from vals import E, N, B, I, F, S, L, M, U, V, W, P, G
from value import DT, order_universe, shape_universe

MAX, MIN = 2 ** 63 - 1, -2 ** 63
SRC = DT + ["common/graph/Response.cpp"]


def obj(s, **f):
    return {"s": s, "f": f}


def props(p):
    return [{"k": v.codes(k), "v": value(x)} for k, x in p.items()]


def vertex(x):
    return obj("Vertex", vid=value(x[1]), tags=[obj("Tag", name=v.codes(n), props=props(p)) for n, p in x[2]])


def rows(g):
    return obj("DataSet", column_names=[v.codes(c) for c in g[1]], rows=[obj("Row", values=[value(x) for x in r]) for r in g[2]])


def value(x):
    """a value as an object with the fields of the interface definition"""
    t, n = x[0], v.big
    alt = lambda k, y: obj("Value", **{k: y})
    if t == "E": return obj("Value")
    if t == "N": return alt("nVal", n(x[1]))
    if t == "B": return alt("bVal", bool(x[1]))
    if t == "I": return alt("iVal", n(x[1]))
    if t == "F": return alt("fVal", v.flt(x[1]))
    if t == "S": return alt("sVal", v.codes(x[1]))
    if t == "D": return alt("dVal", obj("Date", year=n(x[1]), month=n(x[2]), day=n(x[3])))
    if t == "T": return alt("tVal", obj("Time", hour=n(x[1]), minute=n(x[2]), sec=n(x[3]), microsec=n(x[4])))
    if t == "X": return alt("dtVal", obj("DateTime", year=n(x[1]), month=n(x[2]), day=n(x[3]), hour=n(x[4]), minute=n(x[5]), sec=n(x[6]), microsec=n(x[7])))
    if t == "V": return alt("vVal", vertex(x))
    if t == "W": return alt("eVal", obj("Edge", src=value(x[1]), dst=value(x[2]), type=n(x[3]), name=v.codes(x[4]), ranking=n(x[5]), props=props(x[6])))
    if t == "P": return alt("pVal", obj("Path", src=vertex(x[1]), steps=[obj("Step", dst=vertex(d), type=n(ty), name=v.codes(nm), ranking=n(r), props=props(p)) for d, ty, nm, r, p in x[2]]))
    if t == "L": return alt("lVal", obj("NList", values=[value(y) for y in x[1]]))
    if t == "M": return alt("mVal", obj("NMap", kvs=props(x[1])))
    if t == "U": return alt("uVal", obj("NSet", values=[value(y) for y in x[1]]))
    if t == "G": return alt("gVal", rows(x))
    return obj("?")


# other structs: (struct, field values) with fields in the order of the driver's words
class Words(v._R):
    pass


INT, BOOL, BIN, DATA = "int", "bool", "bin", "data"
TABLE = {
    "HostAddr": [("host", BIN), ("port", INT)], "KeyValue": [("key", BIN), ("value", BIN)],
    "Pair": [("key", BIN), ("value", BIN)],
    "ProfilingStats": [("rows", INT), ("exec_duration_in_us", INT), ("total_duration_in_us", INT), ("other_stats", ("opt", ("map", BIN, BIN)))],
    "PlanNodeBranchInfo": [("is_do_branch", BOOL), ("condition_node_id", INT)],
    "PlanNodeDescription": [("name", BIN), ("id", INT), ("output_var", BIN), ("description", ("opt", ("list", "Pair"))), ("profiles", ("opt", ("list", "ProfilingStats"))),
                            ("branch_info", ("opt", "PlanNodeBranchInfo")), ("dependencies", ("opt", ("list", INT)))],
    "PlanDescription": [("plan_node_descs", ("list", "PlanNodeDescription")), ("node_index_map", ("map", INT, INT)), ("format", BIN), ("optimize_time_in_us", INT)],
    "ExecutionResponse": [("error_code", INT), ("latency_in_us", INT), ("data", ("opt", DATA)), ("space_name", ("opt", BIN)), ("error_msg", ("opt", BIN)),
                          ("plan_desc", ("opt", "PlanDescription")), ("comment", ("opt", BIN))],
    "AuthResponse": [("error_code", INT), ("error_msg", ("opt", BIN)), ("session_id", ("opt", INT)), ("time_zone_offset_seconds", ("opt", INT)), ("time_zone_name", ("opt", BIN))],
}


def text_of(t, x):
    if t == "Value": return v.text(x)
    if t in (INT, BOOL): return str(int(x))
    if t == BIN: return v.hx(x)
    if t == DATA: return v.text(x)[2:]
    if isinstance(t, tuple):
        if t[0] == "opt": return "-" if x is None else "+ " + text_of(t[1], x)
        if t[0] == "list": return " ".join([str(len(x))] + [text_of(t[1], y) for y in x])
        return " ".join([str(len(x))] + [text_of(t[1], k) + " " + text_of(t[2], y) for k, y in x.items()])
    return " ".join(text_of(ft, x[n]) for n, ft in TABLE[t])


def parse(t, r):
    if t == "Value": return r.val()
    if t == INT: return r.n()
    if t == BOOL: return bool(r.n())
    if t == BIN: return r.h()
    if t == DATA:
        c = [r.h() for _ in range(r.n())]
        return ("G", c, [r.list() for _ in range(r.n())])
    if isinstance(t, tuple):
        if t[0] == "opt": return None if r.t() == "-" else parse(t[1], r)
        if t[0] == "list": return [parse(t[1], r) for _ in range(r.n())]
        return {parse(t[1], r): parse(t[2], r) for _ in range(r.n())}
    return {n: parse(ft, r) for n, ft in TABLE[t]}


def to_tla(t, x):
    if t == "Value": return value(x)
    if t == INT: return v.big(x)
    if t == BOOL: return bool(x)
    if t == BIN: return v.codes(x)
    if t == DATA: return rows(x)
    if isinstance(t, tuple):
        if t[0] == "opt": return to_tla(t[1], x)
        if t[0] == "list": return [to_tla(t[1], y) for y in x]
        return [{"k": to_tla(t[1], k), "v": to_tla(t[2], y)} for k, y in x.items()]
    return obj(t, **{n: to_tla(ft, x[n]) for n, ft in TABLE[t] if x[n] is not None})


# wire trees: ["{", [[id, name, tree]..]] [letter, scalar] ["L"|"S", [trees]] ["M", [[k, v]..]]
def tree(words):
    it = iter(words)

    def one():
        w = next(it)
        if w == "{":
            fs = []
            for _ in range(int(next(it))):
                i, _, n = next(it).partition("=")
                fs.append([int(i or 0), n, one()])
            return ["{", fs]
        if w in ("L", "S"):
            return [w, [one() for _ in range(int(next(it)))]]
        if w == "M":
            return [w, [[one(), one()] for _ in range(int(next(it)))]]
        return [w[0], w[1:]]
    t = one()
    assert next(it, None) is None
    return t


def tree_text(t):
    if t[0] == "{":
        return " ".join(["{", str(len(t[1]))] + ["%d=%s %s" % (i, n, tree_text(x)) for i, n, x in t[1]])
    if t[0] in "LS":
        return " ".join([t[0], str(len(t[1]))] + [tree_text(x) for x in t[1]])
    if t[0] == "M":
        return " ".join(["M", str(len(t[1]))] + [tree_text(k) + " " + tree_text(x) for k, x in t[1]])
    return t[0] + t[1]


def tree_tla(t):
    k, x = t
    if k == "{": return {"w": "struct", "f": [{"id": i, "name": n, "v": tree_tla(y)} for i, n, y in x]}
    if k in "LS": return {"w": {"L": "list", "S": "set"}[k], "v": [tree_tla(y) for y in x]}
    if k == "M": return {"w": "map", "v": [{"k": tree_tla(a), "v": tree_tla(b)} for a, b in x]}
    if k in "yhil": return {"w": {"y": "i8", "h": "i16", "i": "i32", "l": "i64"}[k], "n": v.big(int(x))}
    if k == "b": return {"w": "bool", "v": x == "1"}
    if k == "d": return {"w": "double", "v": v.flt(float.fromhex(x) if "0x" in x else float(x))}
    return {"w": "binary", "c": v.codes(bytes.fromhex(x))}


def idl():
    """the structs of the interface definition that the code writes by hand"""
    td, structs, unions = {}, {}, []
    for f in ("common", "graph"):
        s = open(vf.SRC + "/common/interface/%s.thrift" % f).read()
        s = re.sub(r"/\*.*?\*/|//[^\n]*|(?m:^\s*#[^\n]*)", "", s, flags=re.S)
        for t, n in re.findall(r"typedef\s+(\w+)[^\n]*?(\w+)\s*\n", s):
            td[n] = t
        for n in re.findall(r"enum\s+(\w+)", s):
            td[n] = "i32"
        for kind, n, body, ann in re.findall(r"(struct|union)\s+(\w+)\s*\{(.*?)\}\s*(\([^)]*\))?", s, flags=re.S):
            if "cpp.type" not in ann:
                continue
            if kind == "union":
                unions.append(n)
            body = re.sub(r"\([^)]*\)", "", body)
            structs[n] = [(int(i), name, ty.replace(" ", ""), {"required": "R", "optional": "O"}.get(rq.strip(), "D"))
                          for i, rq, ty, name in re.findall(r"(\d+)\s*:\s*(required\s|optional\s)?\s*([\w.]+(?:\s*<[^;\n]*>)?)\s+(\w+)", body)]

    def ty(s):
        s = s.replace("common.", "")
        m = re.match(r"(list|set|map)<(.*)>$", s)
        if m:
            if m.group(1) == "map":
                a, b = m.group(2).split(",", 1)
                return {"k": "map", "key": ty(a), "of": ty(b)}
            return {"k": m.group(1), "of": ty(m.group(2))}
        s = td.get(s, s)
        if s in structs:
            return {"k": "struct", "of": s}
        return {"k": {"byte": "i8", "string": "binary"}.get(s, s)}
    evs = [{"op": "structs", "f": sorted(structs), "u": unions}]
    for n, fs in sorted(structs.items()):
        evs.append({"op": "idl", "root": n, "f": [{"id": i, "name": nm, "type": ty(t), "req": r} for i, nm, t, r in fs]})
    return evs


def gen(rng, depth):
    k = rng.choice("ENBIFSDTXVWPLMUG" if depth > 0 else "ENBIFSDTX")
    r = lambda: gen(rng, depth - 1)
    key = lambda: rng.choice([b"", b"p", b"q", b"long property name", b"\0z", bytes([rng.randrange(256) for _ in range(3)])])
    pr = lambda: {key(): r() for _ in range(rng.choice([0, 1, 2, 3]))}
    num = lambda: rng.choice([0, 1, -1, 63, 64, -64, -65, 8191, 2 ** 31 - 1, -2 ** 31, 2 ** 32, MAX, MIN, rng.getrandbits(62), -rng.getrandbits(40)])
    i32 = lambda: rng.choice([0, 1, -1, 5, -7, 2 ** 31 - 1, -2 ** 31, rng.randrange(-2 ** 31, 2 ** 31)])
    ymd = lambda: (i16(), rng.randrange(1, 13), rng.randrange(1, 32))
    hms = lambda: (rng.randrange(24), rng.randrange(60), rng.choice([0, 59, rng.randrange(60)]), us())
    i16 = lambda: rng.choice([0, 1, -1, 2020, -32768, 32767])
    us = lambda: rng.choice([0, 1, 999999, 65536, rng.randrange(10 ** 6)])
    txt = lambda: rng.choice([b"", b"a", b"\0", bytes(rng.randrange(256) for _ in range(rng.choice([3, 20, 130, 300])))])
    vert = lambda: ("V", r(), [(key(), pr()) for _ in range(rng.choice([0, 0, 1, 2, 16 if depth < 2 else 2]))])
    if k == "E": return E
    if k == "N": return N(rng.randrange(8))
    if k == "B": return B(rng.randrange(2))
    if k == "I": return I(num())
    if k == "F": return F(rng.choice([0.0, -0.0, 1.5, -2.25e300, 5e-324, 0.1, float("inf"), rng.uniform(-1e6, 1e6)]))
    if k == "S": return ("S", txt())
    if k == "D": return ("D",) + ymd()
    if k == "T": return ("T",) + hms()
    if k == "X": return ("X",) + ymd() + hms()
    if k == "V": return vert()
    if k == "W": return ("W", r(), r(), i32(), key(), num(), pr())
    if k == "P": return ("P", vert(), [(vert(), i32(), key(), num(), pr()) for _ in range(rng.choice([0, 1, 2, 3]))])
    if k == "L": return ("L", [r() for _ in range(rng.choice([0, 1, 2, 5, 15 if depth < 2 else 1, 17 if depth < 2 else 1]))])
    if k == "M": return ("M", pr())
    if k == "U":
        xs = [I(rng.randrange(9)), ("S", bytes([rng.randrange(97, 120)])), B(rng.randrange(2)), ("D", 2020, 1, rng.randrange(1, 28)), V(S("a"), ("t", {"p": I(1)}))]
        return ("U", rng.sample(xs, rng.randrange(len(xs) + 1)))
    n = rng.randrange(4)
    return ("G", [key() for _ in range(n)], [[r() for _ in range(n)] for _ in range(rng.choice([0, 1, 3]))])


def responses(rng, codes, n):
    txt = lambda: rng.choice([b"", b"x", b"some text", bytes(rng.randrange(256) for _ in range(40))])
    num = lambda: rng.choice([0, 1, -1, 77, 2 ** 40, MAX, MIN])
    i32 = lambda: rng.choice([0, 1, -1, 1000, 2 ** 31 - 1, -2 ** 31])
    opt = lambda f: f() if rng.random() < 0.6 else None
    some = lambda f: [f() for _ in range(rng.choice([0, 1, 2, 3]))]
    prof = lambda: {"rows": num(), "exec_duration_in_us": num(), "total_duration_in_us": num(), "other_stats": opt(lambda: {txt(): txt() for _ in range(rng.randrange(4))})}
    node = lambda: {"name": txt(), "id": num(), "output_var": txt(), "description": opt(lambda: some(lambda: {"key": txt(), "value": txt()})), "profiles": opt(lambda: some(prof)),
                    "branch_info": opt(lambda: {"is_do_branch": rng.random() < 0.5, "condition_node_id": num()}), "dependencies": opt(lambda: some(num))}
    plan = lambda: {"plan_node_descs": some(node), "node_index_map": {num(): num() for _ in range(rng.randrange(4))}, "format": txt(), "optimize_time_in_us": i32()}
    data = lambda: rng.choice([G([]), G(["a", "b"], [I(1), S("x")], [N(0), E]), G(["c"])])
    for _ in range(n):
        yield "ExecutionResponse", {"error_code": rng.choice(codes), "latency_in_us": i32(), "data": opt(data), "space_name": opt(txt), "error_msg": opt(txt), "plan_desc": opt(plan), "comment": opt(txt)}
        yield "AuthResponse", {"error_code": rng.choice(codes), "error_msg": opt(txt), "session_id": opt(num), "time_zone_offset_seconds": opt(i32), "time_zone_name": opt(txt)}
        yield "HostAddr", {"host": txt(), "port": rng.choice([0, 80, 44500, 65535, -1, 2 ** 31 - 1])}
        yield "KeyValue", {"key": txt(), "value": txt()}


def nodes(t, out, sets=False):
    """the structs of a tree outside sets"""
    if t[0] == "{":
        out.append(t)
        for f in t[1]:
            nodes(f[2], out)
    elif t[0] == "L":
        for x in t[1]:
            nodes(x, out)
    elif t[0] == "M":
        for _, x in t[1]:
            nodes(x, out)
    return out


def scrap(rng, depth=2):
    """any tree"""
    k = rng.choice("yhilbds{LSM" if depth else "yhilbds")
    n = rng.choice([0, 1, 2, 17 if depth == 1 else 1])
    if k == "{": return [k, [[i, "u%d" % i, scrap(rng, depth - 1)] for i in rng.sample([1, 2, 3, 9, 40, -2], n % 5)]]
    if k in "LSM":
        e = scrap(rng, depth - 1)
        return [k, [[["s", ""], e] if k == "M" else e for _ in range(n)]]
    return [k, {"b": "1", "d": "0x1p0", "s": "6162"}.get(k, "5")]


def mutate(rng, t, names):
    """another tree a peer may send; True if fields have types they should not have"""
    t = json.loads(json.dumps(t))
    odd = False
    for _ in range(rng.choice([1, 1, 2, 4])):
        s = rng.choice(nodes(t, []))
        what = rng.random()
        if what < 0.35:
            rng.shuffle(s[1])
        elif what < 0.55 and s[1]:
            s[1].pop(rng.randrange(len(s[1])))
        elif what < 0.85:
            i = rng.choice([i for i in (30, 16, 200, 1000, -5) if i not in [f[0] for f in s[1]]] or [77])
            f = [i, "unknown%d" % abs(i), scrap(rng)]
            if s[1] and rng.random() < 0.5:      # the next number
                i = max(g[0] for g in s[1]) + 1
                f = [i, "next%d" % i, rng.choice([scrap(rng, 1), s[1][-1][2], ["L", []], ["l", "5"]])]
                odd = True
                s[1].append(f)
            elif len(s[1]) == 1 and rng.random() < 0.7:
                s[1][:] = [f]        # a union of another kind
            else:
                s[1].insert(rng.randrange(len(s[1]) + 1), f)
        elif s[1]:
            f = rng.choice(s[1])
            x = scrap(rng)
            if x[0] != f[2][0]:
                f[2] = x
                odd = True
    return t, odd


def body(c):
    exe = c.build("wire", [vf.VERIF + "/harness/wire_driver.cpp"] + SRC, shim=True)
    rng = c.rng
    laws, extra = order_universe(c)
    roots = [("Value", x) for x in laws + extra] + [("Value", x) for l in shape_universe(c).values() for x in l[:12]]
    roots += [("Value", gen(rng, rng.choice([1, 1, 2, 2, 3]))) for _ in range(2500 if c.thorough else 300)]
    roots += list(responses(rng, [0, -1, -8000, -3053], 300 if c.thorough else 40))
    roots = [r for r in roots if len(text_of(*r)) < 6000]
    lines = ["enc %s %s" % (t, text_of(t, x)) for t, x in roots]
    evs = idl()
    names = {}      # the names that go with the numbers of a tree
    out, crash = c.drive(exe, lines, 300)
    for (t, x), l, o in zip(roots, lines, out):
        r = json.loads(o)
        w = to_tla(t, x)
        for p in "bcn":
            evs.append({"op": "enc", "root": t, "proto": p, "x": w, "w": tree_tla(tree(r[p].split())), "ok": r["ok" + p], "line": l})
            b = r["back" + p]
            ok = b not in ("fail", "rest")
            evs.append({"op": "back", "root": t, "proto": p, "x": w, "r": to_tla(t, parse(t, Words(b.split()))) if ok else {}, "ok": ok, "line": l, "got": b})
    if crash or len(out) < len(lines):
        raise vf.Violation("wire format: writing and reading crashed: %s" % crash, {"kind": "replay", "driver": "wire", "script": [lines[len(out)]], "why": str(crash)})
    # what other peers may send
    decl = [(e["root"], [(f["id"], f["name"]) for f in e["f"]]) for e in evs if e["op"] == "idl"]

    def struct(f):
        """which struct it is (never the union), and its first unused number"""
        for name, fs in decl:
            if f[1] and name != "Value" and {(g[0], g[1]) for g in f[1]} <= set(fs):
                return name, max(i for i, _ in fs) + 1
    trees, dl, seen = [], [], {}
    for (t, x), o in zip(roots, out):
        r = json.loads(o)
        b, n = tree(r["b"].split()), tree(r["n"].split())
        if not merge(b, n):
            continue        # found above
        ms = [mutate(rng, b, None) for _ in range(4 if c.thorough else 2)]
        # one more field of a newer peer behind the last, of every type for every struct
        m = json.loads(json.dumps(b))
        kinds = [struct(f) for f in nodes(m, [])]
        at = [(seen.get((s[0], k), 0), j, k) for j, s in enumerate(kinds) if s for k in "yhilbds{LSM"]
        if at and min(at)[0] < 3:
            _, j, k = min(at)
            f = nodes(m, [])[j]
            name, i = kinds[j]
            seen[name, k] = seen.get((name, k), 0) + 1
            f[1].append([i, "next%d" % i, next(x for x in iter(lambda: scrap(rng, 2), None) if x[0] == k)])
            ms.append((m, True))
        for m, odd in ms:
            trees.append((t, m, odd))
            dl.append("dec %s %s" % (t, tree_text(m)))
    out2, crash = c.drive(exe, dl, 300)
    for (t, m, odd), l, o in zip(trees, dl, out2):
        r = json.loads(o)
        for p in "bcn":
            if p == "n" and odd:
                continue        # without numbers a field has the type its name says, and no number
            ok = r[p] not in ("fail", "rest")
            if r[p] == "rest":
                raise vf.Violation("wire format: reading %s stopped before the end" % l, {"kind": "replay", "driver": "wire", "script": [l]})
            evs.append({"op": "dec", "root": t, "proto": p, "w": tree_tla(m), "r": to_tla(t, parse(t, Words(r[p].split()))) if ok else {}, "ok": ok, "line": l, "got": r[p]})
    if crash or len(out2) < len(dl):
        raise vf.Violation("wire format: reading crashed: %s" % crash, {"kind": "replay", "driver": "wire", "script": [dl[len(out2)]], "why": str(crash)})
    traces = [evs[i:i + 40] for i in range(0, len(evs), 40)]
    show = lambda e: {k: e[k] for k in ("op", "root", "proto", "line", "got", "ok", "f") if k in e}
    c.validate_parallel("wire/WireTrace", "Trace.cfg", traces, what="wire format", show=show)
    c.samples = [{"trace": [show(e) for e in traces[len(traces) // 2][:6]]}]
    c.assumptions += ["the bytes of each field are those of stand-in protocols, not of the thrift library", "no field is sent twice", "sets hold what can be hashed"]


def merge(b, n):
    """b with the names of n; False if they differ"""
    if b[0] != n[0]:
        return False
    if b[0] == "{":
        if len(b[1]) != len(n[1]):
            return False
        for f, g in zip(b[1], n[1]):
            f[1] = g[1]
            if not merge(f[2], g[2]):
                return False
    elif b[0] in "LSM":
        if len(b[1]) != len(n[1]):
            return False
        for f, g in zip(b[1], n[1]):
            if not (merge(f, g) if b[0] != "M" else merge(f[0], g[0]) and merge(f[1], g[1])):
                return False
    return True
