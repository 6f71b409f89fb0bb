// Line driver for file utilities.  Runs as an unprivileged user inside the scratch
// directory argv[1]; argv[2]: whether directory entries come with their type.
#include "common/base/Base.h"
#include "common/fs/FileUtils.h"
#include "common/fs/TempFile.h"
#include "common/fs/TempDir.h"
#include "drv.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <grp.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace nebula;
using namespace nebula::fs;
static bool untyped = false, faked = false;
static unsigned long bfree_, bavail_, bsize_;
extern "C" struct dirent* readdir(DIR* d) {
    static auto real = reinterpret_cast<struct dirent* (*)(DIR*)>(dlsym(RTLD_NEXT, "readdir"));
    auto* e = real(d); if (e && untyped) e->d_type = DT_UNKNOWN; return e;
}
extern "C" int statfs(const char* p, struct statfs* s) { long r = syscall(SYS_statfs, p, s); if (r == 0 && faked) { s->f_bfree = bfree_; s->f_bavail = bavail_; s->f_bsize = bsize_; s->f_frsize = bsize_; } return r; }
extern "C" int statvfs(const char* p, struct statvfs* s) { struct statfs t; int r = statfs(p, &t); if (r == 0) { memset(s, 0, sizeof *s); s->f_bfree = t.f_bfree; s->f_bavail = t.f_bavail; s->f_bsize = t.f_bsize; s->f_frsize = t.f_bsize; } return r; }
static std::string scratch;
using Names = std::vector<std::string>;
static Names names(const std::string& tok) { Names v; if (tok == ".") return v; std::istringstream i(tok); std::string w; while (std::getline(i, w, '/')) v.push_back(drv::unhex("x" + w.substr(1))); return v; }
static std::string jnames(const Names& v) { std::string s = "["; for (auto& n : v) s += (s.size() > 1 ? "," : "") + drv::bytes(n); return s + "]"; }
static std::string rel(const Names& v) { std::string s; for (auto& n : v) s += (s.empty() ? "" : "/") + n; return s; }
static std::string spell(const std::string& how, const Names& v) {
    std::string r = rel(v);
    if (how == "abs") return r.empty() ? scratch : scratch + "/" + r;
    if (how == "dot") return r.empty() ? "." : "./" + r;
    if (how == "slash") return r.empty() ? "./" : r + "/";
    return r.empty() ? "." : r;
}
static Names split(const std::string& s) { Names v; std::istringstream i(s); std::string w; while (std::getline(i, w, '/')) v.push_back(w); return v; }
static bool within(const std::string& s, Names* out) { if (s == scratch) { out->clear(); return true; } if (s.compare(0, scratch.size() + 1, scratch + "/") != 0) return false; *out = split(s.substr(scratch.size() + 1)); return true; }
static void dump(const Names& at, std::string* o, bool wipe) {
    std::string d = at.empty() ? "." : rel(at);
    bool was = untyped; untyped = false; DIR* h = opendir(d.c_str()); std::vector<std::string> es; if (h) { while (auto* e = readdir(h)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) es.push_back(e->d_name); closedir(h); } untyped = was;
    for (auto& n : es) {
        Names p = at; p.push_back(n); std::string f = rel(p); struct stat st; if (lstat(f.c_str(), &st)) continue;
        std::string k = "other", c = "[]", to = "[]"; int m = 0;
        if (S_ISDIR(st.st_mode)) { k = "dir"; m = st.st_mode & 07777; if (wipe) chmod(f.c_str(), 0700); }
        else if (S_ISREG(st.st_mode)) { k = "file"; m = st.st_mode & 07777; if (!wipe) { int fd = open(f.c_str(), O_RDONLY | O_NOFOLLOW); std::string b(st.st_size, 0); if (fd >= 0) { if (read(fd, &b[0], b.size()) < 0) b.clear(); close(fd); } c = drv::bytes(b); } }
        else if (S_ISLNK(st.st_mode)) { k = "link"; char b[5000]; ssize_t l = readlink(f.c_str(), b, sizeof b); Names t; if (l >= 0 && within(std::string(b, l), &t)) to = jnames(t); else k = "other"; }
        else if (S_ISFIFO(st.st_mode)) k = "fifo";
        if (o) *o += (o->size() > 1 ? "," : "") + std::string("{\"p\":") + jnames(p) + ",\"n\":{\"k\":\"" + k + "\",\"m\":" + std::to_string(m) + ",\"c\":" + c + ",\"to\":" + to + "}}";
        if (S_ISDIR(st.st_mode)) dump(p, o, wipe);
        if (wipe) ::syscall(SYS_unlinkat, AT_FDCWD, f.c_str(), S_ISDIR(st.st_mode) ? AT_REMOVEDIR : 0);
    }
}
static std::string list(const std::vector<std::string>& v) { return jnames(v); }
int main(int argc, char** argv) {
    scratch = argv[1]; untyped = std::string(argv[2]) == "untyped";
    if (scratch.compare(0, 5, "/tmp/") != 0 || chdir(scratch.c_str())) { fprintf(stderr, "no scratch"); return 3; }
    if (geteuid() == 0 && (setgroups(0, nullptr) || setgid(65534) || setuid(65534))) { fprintf(stderr, "cannot drop privileges"); return 3; }
    umask(0);
    std::map<int, std::unique_ptr<TempFile>> tf; std::map<int, std::unique_ptr<TempDir>> td;
    return drv::loop([&](const std::vector<std::string>& w) -> std::string {
        auto& f = w[0]; drv::Obj o;
        if (f == "reset") { tf.clear(); td.clear(); chdir(scratch.c_str()); dump({}, nullptr, true); std::string t = "["; dump({}, &t, false); return t == "[" ? "{}" : "scratch not empty"; }
        auto tree = [&] { std::string t = "["; dump({}, &t, false); o.raw("tree", t + "]"); };
        if (f == "dirname") return o.bytes("res", FileUtils::dirname(drv::unhex(w[1]).c_str())).done();
        if (f == "basename") return o.bytes("res", FileUtils::basename(drv::unhex(w[1]).c_str())).done();
        if (f == "join") { std::string a = drv::unhex(w[1]), b = drv::unhex(w[2]); return o.bytes("res", FileUtils::joinPath(a, b)).done(); }
        if (f == "divide") { std::string a = drv::unhex(w[1]); folly::StringPiece p, c; FileUtils::dividePath(a, p, c); return o.raw("res", "[" + drv::bytes(p.toString()) + "," + drv::bytes(c.toString()) + "]").done(); }
        if (f == "space") {
            bfree_ = std::stoul(w[1]); bavail_ = std::stoul(w[2]); bsize_ = std::stoul(w[3]); faked = true;
            auto a = FileUtils::free("."), b = FileUtils::available("."); faked = false;
            auto bad = FileUtils::free("no/such/place");
            if (!a.ok() || !b.ok() || bad.ok()) return o.num("free", -1).num("avail", -1).num("rest", 1).done();
            return o.num("free", a.value() / bsize_).num("avail", b.value() / bsize_).num("rest", a.value() % bsize_ + b.value() % bsize_).done();
        }
        Names p = w.size() > 2 ? names(w[2]) : Names(); std::string s = w.size() > 1 ? spell(w[1], p) : "";
        if (f == "mkfile") { std::string c = drv::unhex(w[3]); int fd = open(s.c_str(), O_CREAT | O_EXCL | O_WRONLY | O_NOFOLLOW, 0644); if (fd >= 0) { if (write(fd, c.data(), c.size()) < 0) {} close(fd); } o.boolean("ok", fd >= 0); tree(); }
        else if (f == "mklink") { Names t = names(w[3]); o.boolean("ok", symlink(spell("abs", t).c_str(), s.c_str()) == 0); tree(); }
        else if (f == "mkfifo") { o.boolean("ok", mkfifo(s.c_str(), 0600) == 0); tree(); }
        else if (f == "swap") { struct stat st; if (lstat(s.c_str(), &st) == 0 && !S_ISDIR(st.st_mode)) unlink(s.c_str()); mkdir(s.c_str(), 0755); tree(); }
        else if (f == "makedir") { o.boolean("ok", w[3] == "509" ? FileUtils::makeDir(s) : FileUtils::makeDir(s, std::stoi(w[3]))); tree(); }
        else if (f == "remove") { o.boolean("ok", w[3] == "1" ? FileUtils::remove(s.c_str(), true) : FileUtils::remove(s.c_str())); tree(); }
        else if (f == "rename") { o.boolean("ok", FileUtils::rename(s, spell(w[1], names(w[3])))); tree(); }
        else if (f == "type") { o.str("res", FileUtils::getFileTypeName(FileUtils::fileType(s.c_str()))); tree(); }
        else if (f == "exist") { o.boolean("ok", FileUtils::exist(s)); tree(); }
        else if (f == "size") { o.num("n", FileUtils::fileSize(s.c_str())); tree(); }
        else if (f == "mtime") { struct timespec ts[2]; ts[0].tv_sec = 1; ts[0].tv_nsec = 0; ts[1].tv_sec = std::stol(w[3]); ts[1].tv_nsec = 999999999; utimensat(AT_FDCWD, s.c_str(), ts, AT_SYMLINK_NOFOLLOW); o.num("n", FileUtils::fileLastUpdateTime(s.c_str())); tree(); }
        else if (f == "readlink" || f == "realpath") {
            auto r = f == "readlink" ? FileUtils::readLink(s.c_str()) : FileUtils::realPath(s.c_str()); Names t; bool ok = r.ok() && within(r.value(), &t);
            if (r.ok() && !ok) t = {"outside", r.value().substr(0, 50)};
            o.boolean("ok", r.ok()).raw("res", jnames(t)); tree();
        }
        else if (f == "list") {
            std::string k = w[3], pat = drv::unhex(w[4]); bool full = w[5] == "1"; const char* pp = pat.empty() ? nullptr : pat.c_str(); std::vector<std::string> r;
            if (k == "file") r = pp ? FileUtils::listAllFilesInDir(s.c_str(), full, pp) : full ? FileUtils::listAllFilesInDir(s.c_str(), true) : FileUtils::listAllFilesInDir(s.c_str());
            else if (k == "dir") r = FileUtils::listAllDirsInDir(s.c_str(), full, pp);
            else r = FileUtils::listAllTypedEntitiesInDir(s.c_str(), k == "link" ? FileType::SYM_LINK : FileType::FIFO, full, pp);
            if (full) for (auto& x : r) { std::string pre = s.back() == '/' ? s : s + "/"; if (x.compare(0, pre.size(), pre) == 0) x = x.substr(pre.size()); else x = "?" + x; }
            o.raw("res", list(r)); tree();
        }
        else if (f == "iter") {
            std::string piece = drv::unhex(w[3]); std::regex re(piece); std::vector<std::string> r; bool matched = true;
            FileUtils::Iterator it(s, piece.empty() ? nullptr : &re);
            for (; it.valid(); ++it) { r.push_back(it.entry()); if (!piece.empty() && it.matched().str() != piece) matched = false; }
            o.boolean("ok", matched && it.status().toString().find("EOF") != std::string::npos).raw("res", list(r)); tree();
        }
        else if (f == "tempfile" || f == "tempdir") {
            int i = std::stoi(w[3]); bool del = w[4] == "1", good = w[5] == "1"; std::string t = s + (good ? "XXXXXX" : "XXXXX"), got; bool ok = true;
            if (f == "tempfile") { try { tf[i].reset(); tf[i].reset(del ? new TempFile(t.c_str()) : new TempFile(t.c_str(), false)); got = tf[i]->path(); } catch (const std::runtime_error&) { ok = false; tf.erase(i); } }
            else {
                std::string dir = t.substr(0, t.rfind('/') == std::string::npos ? 0 : t.rfind('/')), base = t.substr(t.rfind('/') + 1);
                td[i].reset(); td[i].reset(i % 2 == 0 && !dir.empty() ? new TempDir(dir.c_str(), base.c_str(), del) : del ? new TempDir(t.c_str()) : new TempDir(t.c_str(), false));
                const char* q = td[i]->path(); ok = q && *q; if (ok) got = q;
            }
            std::string head = t.substr(0, t.rfind('/') + 1);
            if (ok && got.compare(0, head.size(), head) != 0) got = "?" + got; else if (ok) got = got.substr(head.size());
            o.boolean("ok", ok).bytes("name", got); tree();
        }
        else if (f == "drop") { int i = std::stoi(w[1]); tf.erase(i); td.erase(i); tree(); }
        return o.done();
    });
}
