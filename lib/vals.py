"""Values: Python trees <-> the drivers' prefix text <-> records for TLC.
('E',) ('N',k) ('B',0|1) ('I',int) ('F',float) ('S',bytes) ('D',y,m,d) ('T',h,mi,s,us) ('X',y,m,d,h,mi,s,us)
('V',vid,[(name,{k:v})]) ('W',src,dst,type,name,rank,{}) ('P',vertex,[(vertex,type,name,rank,{})])
('L',[..]) ('M',{k:v}) ('U',[..]) ('G',[col],[[..]])"""
import json
from fractions import Fraction

NULLS = ["NULL", "NaN", "BAD_DATA", "BAD_TYPE", "OVERFLOW", "UNKNOWN_PROP", "DIV_BY_ZERO", "OUT_OF_RANGE"]
E = ("E",)
def N(k=0): return ("N", k)
def B(b): return ("B", int(b))
def I(n): return ("I", n)
def F(x): return ("F", float(x))
def S(s): return ("S", s if isinstance(s, bytes) else s.encode())
def L(*v): return ("L", list(v))
def _k(s): return s if isinstance(s, bytes) else s.encode()
def M(**kv): return ("M", {_k(k): v for k, v in kv.items()})
def U(*v): return ("U", list(v))
def V(vid, *tags): return ("V", vid, [(_k(n), {_k(k): v for k, v in p.items()}) for n, p in tags])
def W(src, dst, type, name="e", rank=0, **p): return ("W", src, dst, type, _k(name), rank, {_k(k): v for k, v in p.items()})
def P(v, *steps): return ("P", v, [(d, t, _k(n), r, {_k(k): x for k, x in p.items()}) for d, t, n, r, p in steps])
def G(cols, *rows): return ("G", [_k(c) for c in cols], [list(r) for r in rows])

# ---- text
def hx(b): return "x" + b.hex()
def _props(p): return " ".join([str(len(p))] + [hx(k) + " " + text(v) for k, v in p.items()])
def _vertex(v): return " ".join([text(v[1]), str(len(v[2]))] + [hx(n) + " " + _props(p) for n, p in v[2]])
def _list(l): return " ".join([str(len(l))] + [text(x) for x in l])
def text(v):
    t = v[0]
    if t == "E": return "E"
    if t in "NBI": return "%s %d" % (t, v[1])
    if t == "F": return "F " + v[1].hex() if v[1] == v[1] and abs(v[1]) != float("inf") else "F " + str(v[1])
    if t == "S": return "S " + hx(v[1])
    if t in "DTX": return " ".join([t] + [str(x) for x in v[1:]])
    if t == "V": return "V " + _vertex(v)
    if t == "W": return " ".join(["W", text(v[1]), text(v[2]), str(v[3]), hx(v[4]), str(v[5]), _props(v[6])])
    if t == "P": return " ".join(["P", _vertex(v[1]), str(len(v[2]))] + [" ".join([_vertex(d), str(ty), hx(n), str(r), _props(p)]) for d, ty, n, r, p in v[2]])
    if t == "L": return "L " + _list(v[1])
    if t == "M": return "M " + _props(v[1])
    if t == "U": return "U " + _list(v[1])
    if t == "G": return " ".join(["G", str(len(v[1]))] + [hx(c) for c in v[1]] + [str(len(v[2]))] + [_list(r) for r in v[2]])
    raise ValueError(t)

class _R:
    def __init__(s, w): s.w, s.i = w, 0
    def t(s): s.i += 1; return s.w[s.i - 1]
    def n(s): return int(s.t())
    def h(s): return bytes.fromhex(s.t()[1:])
    def props(s): return {s.h(): s.val() for _ in range(s.n())}
    def vertex(s): vid = s.val(); return ("V", vid, [(s.h(), s.props()) for _ in range(s.n())])
    def list(s): return [s.val() for _ in range(s.n())]
    def step(s): d = s.vertex(); t = s.n(); n = s.h(); r = s.n(); return (d, t, n, r, s.props())
    def val(s):
        t = s.t()
        if t == "E": return E
        if t in "NBI": return (t, s.n())
        if t == "F":
            x = s.t()
            return ("F", float.fromhex(x) if "0x" in x else float(x))
        if t == "S": return ("S", s.h())
        if t == "D": return ("D",) + tuple(s.n() for _ in range(3))
        if t == "T": return ("T",) + tuple(s.n() for _ in range(4))
        if t == "X": return ("X",) + tuple(s.n() for _ in range(7))
        if t == "V": return s.vertex()
        if t == "W": a = s.val(); b = s.val(); ty = s.n(); n = s.h(); r = s.n(); return ("W", a, b, ty, n, r, s.props())
        if t == "P": v = s.vertex(); return ("P", v, [s.step() for _ in range(s.n())])
        if t == "L": return ("L", s.list())
        if t == "M": return ("M", s.props())
        if t == "U": return ("U", s.list())
        if t == "G": c = [s.h() for _ in range(s.n())]; return ("G", c, [s.list() for _ in range(s.n())])
        if t == "?": return ("?", s.n())
        raise ValueError(t)
def parse(s):
    r = _R(s.split())
    v = r.val()
    assert r.i == len(r.w), s
    return v

# ---- records for TLC
def big(n):
    d, m = [], abs(n)
    while m:
        d.append(m % 1000)
        m //= 1000
    return {"s": (n > 0) - (n < 0), "d": d}
def codes(b): return list(b)
def _kv(p): return [{"k": codes(k), "v": tla(v)} for k, v in sorted(p.items())]
def flt(x):
    if x != x: return {"t": "FLOAT", "sp": "nan", "n": big(0), "k": 0}
    if abs(x) == float("inf"): return {"t": "FLOAT", "sp": "inf" if x > 0 else "-inf", "n": big(0), "k": 0}
    f = Fraction(x)
    return {"t": "FLOAT", "sp": "", "n": big(f.numerator), "k": f.denominator.bit_length() - 1}
def tla(v):
    t = v[0]
    if t == "E": return {"t": "EMPTY"}
    if t == "N": return {"t": "NULL", "k": NULLS[v[1]] if v[1] < len(NULLS) else str(v[1])}
    if t == "B": return {"t": "BOOL", "b": bool(v[1])}
    if t == "I": return {"t": "INT", "n": big(v[1])}
    if t == "F": return flt(v[1])
    if t == "S": return {"t": "STRING", "c": codes(v[1])}
    if t == "D": return {"t": "DATE", "y": v[1], "mo": v[2], "d": v[3]}
    if t == "T": return {"t": "TIME", "h": v[1], "mi": v[2], "s": v[3], "us": v[4]}
    if t == "X": return {"t": "DATETIME", "y": v[1], "mo": v[2], "d": v[3], "h": v[4], "mi": v[5], "s": v[6], "us": v[7]}
    if t == "V": return {"t": "VERTEX", "vid": tla(v[1]), "tags": [{"name": codes(n), "props": _kv(p)} for n, p in v[2]]}
    if t == "W": return {"t": "EDGE", "src": tla(v[1]), "dst": tla(v[2]), "ty": v[3], "name": codes(v[4]), "rank": v[5], "props": _kv(v[6])}
    if t == "P": return {"t": "PATH", "src": tla(v[1]), "steps": [{"dst": tla(d), "ty": ty, "name": codes(n), "rank": r, "props": _kv(p)} for d, ty, n, r, p in v[2]]}
    if t == "L": return {"t": "LIST", "v": [tla(x) for x in v[1]]}
    if t == "M": return {"t": "MAP", "v": _kv(v[1])}
    if t == "U": return {"t": "SET", "v": sorted((tla(x) for x in v[1]), key=lambda x: json.dumps(x, sort_keys=True))}
    if t == "G": return {"t": "DATASET", "cols": [codes(c) for c in v[1]], "rows": [[tla(x) for x in r] for r in v[2]]}
    return {"t": "?", "n": v[1]}
