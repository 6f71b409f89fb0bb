"""A stand-in for the thrift compiler: reads the repository's .thrift files and writes the C++ types
(common/interface/gen-cpp2/*_types.h) and asynchronous clients that the code under test includes, with
conversions from and to folly::dynamic, so that a driver can answer a call and print a request."""
import os, re

BASE = {"bool": "bool", "byte": "int8_t", "i16": "int16_t", "i32": "int32_t", "i64": "int64_t", "double": "double",
        "string": "std::string", "binary": "std::string", "void": "void", "float": "float"}
TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[A-Za-z_][A-Za-z0-9_.]*|-?0x[0-9a-fA-F]+|-?\d+(?:\.\d+)?|[^\s]')


def strip(text):
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    out = []
    for line in text.split("\n"):
        line = re.sub(r'(//|#).*$', "", line) if '"' not in line or re.search(r'//', line) else line
        out.append(line)
    return "\n".join(out)


class Unit:
    def __init__(self, name):
        self.name, self.ns, self.includes, self.cppinc, self.decls, self.services = name, "", [], [], [], []


class Parser:
    def __init__(self, d):
        self.dir, self.units = d, {}

    def load(self, name):
        if name in self.units: return self.units[name]
        u = self.units[name] = Unit(name)
        self.t, self.i = TOK.findall(strip(open("%s/%s.thrift" % (self.dir, name)).read())), 0
        u.types = {}
        while self.i < len(self.t): self.decl(u)
        return u

    def peek(self): return self.t[self.i] if self.i < len(self.t) else ""
    def next(self): self.i += 1; return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() == x: self.i += 1; return True
        return False

    def need(self, x):
        y = self.next()
        assert y == x, (x, y, self.t[self.i - 5:self.i + 5])

    def annot(self):
        a = {}
        if self.eat("("):
            while not self.eat(")"):
                k = self.next()
                v = "1"
                if self.eat("="): v = self.next().strip("\"'")
                a[k] = v
                self.eat(",")
        return a

    def type(self):
        n = self.next()
        if n in ("list", "set", "map"):
            self.need("<")
            k = self.type()
            v = None
            if n == "map": self.need(","); v = self.type()
            self.need(">")
            return (n, k, v, self.annot())
        return ("name", n, None, self.annot())

    def const(self):
        x = self.next()
        if x in "[{":
            items, close = [], {"[": "]", "{": "}"}[x]
            while not self.eat(close):
                items.append(self.const())
                if self.eat(":"): items[-1] = (items[-1], self.const())
                self.eat(",")
            return items
        return x

    def fields(self, close):
        fs = []
        while not self.eat(close):
            int(self.next()); self.need(":")
            q = "default"
            if self.peek() in ("required", "optional"): q = self.next()
            t = self.type()
            n = self.next()
            d = None
            if self.eat("="): d = self.const()
            self.annot()
            self.eat(",") or self.eat(";")
            fs.append((q, t, n, d))
        return fs

    def decl(self, u):
        k = self.next()
        if k == "namespace":
            lang, ns = self.next(), self.next()
            if lang == "cpp": u.ns = ns
        elif k == "cpp_include": u.cppinc.append(self.next().strip("\"'"))
        elif k == "include":
            n = self.next().strip("\"'").split("/")[-1][:-7]
            save = self.t, self.i
            self.load(n)
            self.t, self.i = save
            u.includes.append(n)
        elif k == "typedef":
            t, n = self.type(), self.next()
            self.eat(";")
            u.decls.append(("typedef", n, t, {}))
            u.types[n] = ("typedef", t)
        elif k == "enum":
            n = self.next()
            self.need("{")
            vs, last = [], -1
            while not self.eat("}"):
                v = self.next()
                if self.eat("="): last = int(self.next(), 0)
                else: last += 1
                vs.append((v, last))
                self.eat(",") or self.eat(";")
            a = self.annot()
            u.decls.append(("enum", n, vs, a))
            u.types[n] = ("enum", a.get("cpp.type"))
        elif k in ("struct", "union", "exception"):
            n = self.next()
            self.need("{")
            fs = self.fields("}")
            a = self.annot()
            u.decls.append((k, n, fs, a))
            u.types[n] = (k, a.get("cpp.type"))
        elif k == "service":
            n = self.next()
            self.need("{")
            ms = []
            while not self.eat("}"):
                self.eat("oneway")
                rt = self.type()
                m = self.next()
                self.need("(")
                ms.append((rt, m, self.fields(")")))
                self.annot()
                self.eat(",") or self.eat(";")
            u.services.append((n, ms))
        elif k == ";": pass
        else: raise Exception("thrift: %s in %s" % (k, u.name))

    # ---- C++ ----
    def find(self, u, n):
        if "." in n:
            m, n = n.split(".", 1)
            u = self.units[m]
        return u, n, u.types.get(n)

    def cpp(self, u, t):
        k, a, b, an = t
        if "cpp.type" in an: return an["cpp.type"]
        if k == "name":
            if a in BASE: return BASE[a]
            v, n, d = self.find(u, a)
            if d is None: raise Exception("thrift: unknown type " + a)
            if d[0] == "typedef": return self.cpp(v, d[1])
            return d[1] or "::%s::cpp2::%s" % (v.ns.replace(".", "::"), n)
        if k == "list": return "std::vector<%s>" % self.cpp(u, a)
        if k == "set": return "%s<%s>" % (an.get("cpp.template", "std::set"), self.cpp(u, a))
        return "%s<%s, %s>" % (an.get("cpp.template", "std::map"), self.cpp(u, a), self.cpp(u, b))

    def init(self, u, t, d):
        c = self.cpp(u, t)
        if d is None:
            k, n, _ = self.resolve(u, t)
            if k == "num": return "{}"
            return "{}"
        if isinstance(d, list) and d and isinstance(d[0], tuple) and t[0] == "name":
            v, n, _ = self.find(u, t[1])
            fs = [x for x in v.decls if x[1] == n][0][2]
            out = []
            for k, x in d:
                k = k.strip("\"'")
                ft = [y[1] for y in fs if y[2] == k][0]
                out.append("x.set_%s(%s);" % (k, self.init(v, ft, x).lstrip(" =")))
            return " = [] { %s x; %s return x; }()" % (c, " ".join(out))
        if isinstance(d, list): return "{" + ", ".join(str(x) for x in d) + "}"
        if re.match(r"^[A-Za-z_]", d) and d not in ("true", "false"):
            return " = %s::%s" % (c, d.split(".")[-1])
        if d[0] in "'\"": return " = " + d.replace("'", '"')
        return " = " + d if c in BASE.values() or d in ("true", "false") else " = static_cast<%s>(%s)" % (c, d)

    def resolve(self, u, t):
        return ("x", None, None)


def header(p, u, b):
    ns = u.ns.replace(".", "::") + "::cpp2"
    o = ["#pragma once", "#include <vfrpc/types.h>"]
    o += ['#include "%s"' % x for x in u.cppinc if not x.endswith("Ops.inl")]
    o += ['#include "%s"' % x.replace("Ops.inl", ".h") for x in u.cppinc if x.endswith("Ops.inl") and x.startswith("common/datatypes")]
    o += ['#include "common/graph/Response.h"'] if u.name == "graph" else []
    o += ['#include "common/interface/gen-cpp2/%s_types.h"' % x for x in u.includes]
    tail = u
    o += ["namespace %s {" % ns]
    for k, n, body, a in u.decls:
        if a.get("cpp.type"): continue
        if k == "enum": o.append("enum class %s { %s };" % (n, ", ".join("%s = %d" % v for v in body)))
        elif k == "typedef": o.append("using %s = %s;" % (n, p.cpp(u, body)))
        else: o.append("class %s;" % n)
    o += ["}", "namespace apache { namespace thrift {"]
    for k, n, body, a in u.decls:
        if k == "enum":
            c = a.get("cpp.type") or "::%s::%s" % (ns, n)
            o += ["template <> struct TEnumTraits<%s> {" % c,
                  "    static const char* findName(%s v) { switch (static_cast<int>(v)) {" % c]
            o += ["        case %d: return \"%s\";" % (i, v) for v, i in body]
            o += ["    } return nullptr; }",
                  "    static bool findValue(const char* s, %s* v) {" % c]
            o += ["        if (!strcmp(s, \"%s\")) { *v = static_cast<%s>(%d); return true; }" % (v, c, i) for v, i in body]
            o += ["        return false; }", "};"]
    o += ["}}"]
    o += ["namespace %s {" % ns]
    for k, n, body, a in u.decls:
        if a.get("cpp.type") or k in ("enum", "typedef"): continue
        if k == "union": o += union(p, u, n, body, b)
        else: o += struct(p, u, n, body, b)
    o += ["}"]
    # maps of names, as the real compiler writes them
    o += ["namespace %s {" % ns]
    for k, n, body, a in u.decls:
        if k == "enum" and not a.get("cpp.type"):
            o += ["struct _%s_Maps { static const std::map<%s, const char*>& names() { static const std::map<%s, const char*> m = {%s}; return m; } };" %
                  (n, n, n, ", ".join("{static_cast<%s>(%d), \"%s\"}" % (n, i, v) for v, i in body)),
                  "inline const std::map<%s, const char*>& _%s_VALUES_TO_NAMES = _%s_Maps::names();" % (n, n, n)]
    o += ["}"]
    return "\n".join(o) + "\n"


def struct(p, u, n, fs, b):
    o = ["class %s final {" % n, "public:", "    %s(); ~%s(); %s(const %s&); %s(%s&&) noexcept; %s& operator=(const %s&); %s& operator=(%s&&) noexcept;" % ((n,) * 10)]
    b += ["%s::%s() = default; %s::~%s() = default; %s::%s(const %s&) = default; %s::%s(%s&&) noexcept = default; %s& %s::operator=(const %s& o) { %s x_(o); return *this = std::move(x_); } %s& %s::operator=(%s&&) noexcept = default;" % ((n,) * 17)]
    iss = []
    for q, t, f, d in fs:
        c = p.cpp(u, t)
        init = p.init(u, t, d)
        if c.startswith("::") and init == "{}" or c.startswith("std::") and init == "{}": init = "" if "std::" in c else "{}"
        o.append("    %s %s%s;" % (c, f, init))
        iss.append(f)
    o.append("    struct { %s } __isset;" % " ".join("bool %s = false;" % f for f in iss))
    for q, t, f, d in fs:
        c = p.cpp(u, t)
        if q == "optional":
            o += ["    const %s* get_%s() const& { return __isset.%s ? &%s : nullptr; }" % (c, f, f, f),
                  "    %s* get_%s() & { return __isset.%s ? &%s : nullptr; }" % (c, f, f, f),
                  "    ::vf::OptRef<%s> %s_ref() & { return {%s, __isset.%s}; }" % (c, f, f, f),
                  "    ::vf::OptRef<%s> %s_ref() && { return {%s, __isset.%s}; }" % (c, f, f, f),
                  "    ::vf::OptRef<const %s> %s_ref() const& { return {%s, __isset.%s}; }" % (c, f, f, f)]
        else:
            o += ["    const %s& get_%s() const& { return %s; }" % (c, f, f),
                  "    %s get_%s() && { return std::move(%s); }" % (c, f, f),
                  "    ::vf::Ref<%s> %s_ref() & { return {%s, __isset.%s}; }" % (c, f, f, f),
                  "    ::vf::Ref<%s> %s_ref() && { return {%s, __isset.%s}; }" % (c, f, f, f),
                  "    ::vf::Ref<const %s> %s_ref() const& { return {%s, __isset.%s}; }" % (c, f, f, f)]
        o += ["    template <class V_ = %s> %s& set_%s(V_&& v) { %s = std::forward<V_>(v); __isset.%s = true; return %s; }" % (c, c, f, f, f, f)]
    eq = ["a.%s == b.%s" % (f, f) if q != "optional" else "a.__isset.%s == b.__isset.%s && (!a.__isset.%s || a.%s == b.%s)" % (f, f, f, f, f) for q, t, f, d in fs]
    b += ["bool operator==(const %s& a, const %s& b) { (void)a; (void)b; return %s; }" % (n, n, " && ".join("(%s)" % e for e in eq) or "true"),
          "folly::dynamic %s::vf_dyn() const { folly::dynamic d = folly::dynamic::object();" % n]
    o += ["    friend bool operator==(const %s& a, const %s& b);" % (n, n),
          "    friend bool operator!=(const %s& a, const %s& b) { return !(a == b); }" % (n, n),
          "    void __clear() { *this = %s(); }" % n, "    folly::dynamic vf_dyn() const; void vf_from(const folly::dynamic& d);", "};"]
    for q, t, f, d in fs:
        b.append("        %sd[\"%s\"] = ::vf::toDyn(%s);" % ("if (__isset.%s) " % f if q == "optional" else "", f, f))
    b += ["        return d; }",
          "void %s::vf_from(const folly::dynamic& d) { for (auto& kv : d.items()) { const std::string k = kv.first;" % n]
    for q, t, f, d in fs:
        b.append("        if (k == \"%s\") { ::vf::fromDyn(kv.second, %s); __isset.%s = true; continue; }" % (f, f, f))
    b += ["        throw std::runtime_error(\"%s has no field \" + k); } }" % n]
    return o


def union(p, u, n, fs, b):
    o = ["class %s final {" % n, "public:", "    enum class Type { __EMPTY__ = 0, %s };" % ", ".join(f for q, t, f, d in fs),
         "    %s() = default;" % n, "    Type getType() const { return t_; }", "    void __clear() { *this = %s(); }" % n, "private:", "    Type t_ = Type::__EMPTY__;"]
    for q, t, f, d in fs: o.append("    %s %s_{};" % (p.cpp(u, t), f))
    o.append("public:")
    for q, t, f, d in fs:
        c = p.cpp(u, t)
        o += ["    const %s& get_%s() const { if (t_ != Type::%s) throw std::logic_error(\"%s\"); return %s_; }" % (c, f, f, f, f),
              "    %s& mutable_%s() { if (t_ != Type::%s) throw std::logic_error(\"%s\"); return %s_; }" % (c, f, f, f, f),
              "    %s move_%s() { return std::move(mutable_%s()); }" % (c, f, f),
              "    template <class V_ = %s> %s& set_%s(V_&& v) { *this = %s(); t_ = Type::%s; return %s_ = std::forward<V_>(v); }" % (c, c, f, n, f, f)]
    o += ["    friend bool operator==(const %s& a, const %s& b) { return a.t_ == b.t_ && %s; }" % (n, n, " && ".join("a.%s_ == b.%s_" % (f, f) for q, t, f, d in fs)),
          "    friend bool operator!=(const %s& a, const %s& b) { return !(a == b); }" % (n, n),
          "    folly::dynamic vf_dyn() const; void vf_from(const folly::dynamic& d);", "};"]
    b.append("folly::dynamic %s::vf_dyn() const { folly::dynamic d = folly::dynamic::object();" % n)
    for q, t, f, d in fs: b.append("        if (t_ == Type::%s) d[\"%s\"] = ::vf::toDyn(%s_);" % (f, f, f))
    b += ["        return d; }", "void %s::vf_from(const folly::dynamic& d) { for (auto& kv : d.items()) { const std::string k = kv.first;" % n]
    for q, t, f, d in fs: b.append("        if (k == \"%s\") { %s x{}; ::vf::fromDyn(kv.second, x); set_%s(x); continue; }" % (f, p.cpp(u, t), f))
    b += ["        throw std::runtime_error(\"%s has no field \" + k); } }" % n]
    return o


def client(p, u, s, b):
    n, ms = s
    ns = u.ns.replace(".", "::") + "::cpp2"
    o = ["#pragma once", "#include <vfrpc/rpc.h>", '#include "common/interface/gen-cpp2/%s_types.h"' % u.name, "namespace %s {" % ns,
         "class %sAsyncClient {" % n, "public:",
         "    explicit %sAsyncClient(std::shared_ptr<apache::thrift::HeaderClientChannel> c) : channel_(std::move(c)) {}" % n,
         "    virtual ~%sAsyncClient() = default;" % n,
         "    apache::thrift::RequestChannel* getChannel() const { return channel_.get(); }"]
    for rt, m, args in ms:
        rc = p.cpp(u, rt)
        r = "folly::Unit" if rc == "void" else rc
        ps = ", ".join("const %s& %s" % (p.cpp(u, t), f) for q, t, f, d in args)
        dy = "folly::dynamic d = folly::dynamic::object();" + "".join(" d[\"%s\"] = ::vf::toDyn(%s);" % (f, f) for q, t, f, d in args)
        o += ["    virtual folly::Future<%s> future_%s(%s);" % (r, m, ps)]
        b += ["folly::Future<%s> %sAsyncClient::future_%s(%s) { %s return ::vf::call<%s>(\"%s\", \"%s\", channel_, %s); }" %
              (r, n, m, ps, dy, r, n, m, "d[\"%s\"]" % args[0][2] if len(args) == 1 else "d")]
    o += ["private:", "    std::shared_ptr<apache::thrift::HeaderClientChannel> channel_;", "};", "}"]
    return "\n".join(o) + "\n"


def put(path, text):
    if os.path.exists(path) and open(path).read() == text: return
    open(path, "w").write(text)


def generate(interface, out):
    """out/common/interface/gen-cpp2/...; returns the sources to compile"""
    g = out + "/common/interface/gen-cpp2"
    os.makedirs(g, exist_ok=True)
    cpps = []
    p = Parser(interface)
    for n in ("common", "graph", "meta", "storage", "raftex"):
        u = p.load(n)
        b = []
        put("%s/%s_types.h" % (g, n), header(p, u, b))
        ns = u.ns.replace(".", "::") + "::cpp2"
        def cpp(name, inc, b):
            put("%s/%s.cpp" % (g, name), '#include "common/interface/gen-cpp2/%s"\nnamespace %s {\n%s\n}\n' % (inc, ns, "\n".join(b)))
            cpps.append("%s/%s.cpp" % (g, name))
        if b: cpp(n + "_types", n + "_types.h", b)
        for s in u.services:
            b = []
            put("%s/%sAsyncClient.h" % (g, s[0]), client(p, u, s, b))
            if s[0] in ("MetaService", "GraphStorageService", "GeneralStorageService", "InternalStorageService"): cpp(s[0] + "AsyncClient", s[0] + "AsyncClient.h", b)
    return [c for c in cpps if "raftex" not in c]


if __name__ == "__main__":
    import sys
    generate(sys.argv[1], sys.argv[2])
