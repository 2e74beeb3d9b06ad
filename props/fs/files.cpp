// F01 path names, F02 file and directory operations, F03 text files and logs.
#include "common.hpp"
#include "utils_filesystem.h"
#include <cerrno>
#include <climits>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <ctime>
#include <sys/stat.h>
#include <unistd.h>

namespace fs = ccgl::utils_filesystem;
using pbt::Ctx;
using pbt::format;
using std::string;
using std::vector;

// ---- destructive calls of the code under test reach the scratch directories only -----------------------
static string g_root;            // the worker's scratch directory while code under test runs, else empty
static vector<string> g_escaped;
static bool contained(const char* p) {
    if (g_root.empty()) return true;  // the engine's own housekeeping
    string s = p, parent = s.find('/') == string::npos ? "." : s.substr(0, s.find_last_of('/') + 1);
    char b[PATH_MAX];
    if (!realpath(parent.c_str(), b)) return true;  // nothing there: the call fails by itself
    string r = b;
    if (r == g_root || r.compare(0, g_root.size() + 1, g_root + "/") == 0) return true;
    g_escaped.push_back(s);
    errno = EPERM;
    return false;
}
extern "C" {
int __real_remove(const char*); int __real_rmdir(const char*); int __real_unlink(const char*);
int __real_unlinkat(int, const char*, int); int __real_rename(const char*, const char*);
int __real_mkdir(const char*, mode_t); int __real_chmod(const char*, mode_t);
int __wrap_remove(const char* p) { return contained(p) ? __real_remove(p) : -1; }
int __wrap_rmdir(const char* p) { return contained(p) ? __real_rmdir(p) : -1; }
int __wrap_unlink(const char* p) { return contained(p) ? __real_unlink(p) : -1; }
int __wrap_unlinkat(int d, const char* p, int f) { return g_root.empty() || contained(p) ? __real_unlinkat(d, p, f) : -1; }
int __wrap_rename(const char* a, const char* b) { return contained(a) && contained(b) ? __real_rename(a, b) : -1; }
int __wrap_mkdir(const char* p, mode_t m) { return contained(p) ? __real_mkdir(p, m) : -1; }
int __wrap_chmod(const char* p, mode_t m) { return contained(p) ? __real_chmod(p, m) : -1; }
}
namespace {
struct Guard {
    Ctx& c;
    explicit Guard(Ctx& c_) : c(c_) {
        char b[PATH_MAX];
        g_escaped.clear();
        g_root = realpath(c.worker_dir().c_str(), b) ? b : c.worker_dir();
    }
    void done() {
        g_root.clear();
        if (!g_escaped.empty()) { string e = g_escaped[0]; g_escaped.clear(); c.fail("tried to change " + e + ", outside the directory given"); }
    }
    ~Guard() { g_root.clear(); }
};

void put(const string& p, const string& text) {
    std::ofstream o(p, std::ios::binary);
    o << text;
}
string get(const string& p) {
    std::ifstream i(p, std::ios::binary);
    std::ostringstream o;
    o << i.rdbuf();
    return o.str();
}
string name(Ctx& c, bool dots = true) {
    static const char* al = "abcxyz019_- .";
    string s;
    size_t n = c.len(1, 8);
    for (size_t i = 0; i < n; i++) s += al[c.below(dots ? 13 : 11)];
    if (s == "." || s == "..") s = "a";
    return s;
}

// ------------------------------------------------------------------------------------------------ F01
void prop_paths(Ctx& c) {
    if (c.chance(2)) {
        char b[PATH_MAX];
        ssize_t n = readlink("/proc/self/exe", b, sizeof b);
        string exe(b, n > 0 ? (size_t)n : 0);
        c.eq(fs::GetAppPath(), exe.substr(0, exe.rfind('/') + 1), "directory of the program");
    }
    string root;
    string dir, given;
    bool exists = false, isdir = false;
    switch (c.below(4)) {
    case 0:  // a path that does not exist
        dir = c.coin() ? "/" : "";
        for (size_t i = c.below(4); i--;) dir += "no" + name(c) + "/";
        given = dir + name(c);
        break;
    case 1:  // no directory at all
        given = "no" + name(c);
        break;
    default: {  // an existing file, spelled plainly or indirectly
        char b[PATH_MAX];
        realpath(c.dir().c_str(), b);
        root = b;
        string d1 = name(c), f = name(c);
        mkdir((root + "/" + d1).c_str(), 0700);
        mkdir((root + "/other").c_str(), 0700);
        put(root + "/" + d1 + "/" + f, "x");
        given = root + "/" + d1 + "/" + f;
        dir = root + "/" + d1 + "/";
        switch (c.below(5)) {
        case 0: break;
        case 1: given = root + "/./" + d1 + "//" + f; break;
        case 2: given = root + "/other/../" + d1 + "/" + f; break;
        case 3:
            symlink((root + "/" + d1).c_str(), (root + "/li.nk").c_str());
            given = root + "/li.nk/" + f;
            break;
        default: given = root + "/other/../" + d1; isdir = true;
        }
        exists = true;
    }
    }
    c.note() << "path " << Ctx::show(given) << (exists ? " (exists)" : "");
    string abs = given;
    if (exists) {
        char b[PATH_MAX];
        realpath(given.c_str(), b);
        abs = b;
    }
    c.label(isdir ? "directory" : exists ? "existing file" : "missing");
    size_t sl = abs.rfind('/');
    string base = sl == string::npos ? abs : abs.substr(sl + 1), parent = sl == string::npos ? "" : abs.substr(0, sl + 1);
    size_t dot = base.rfind('.');
    string core = dot == string::npos ? base : base.substr(0, dot), suf = dot == string::npos ? "" : base.substr(dot + 1);
    if (parent.find('.') != string::npos || dot == string::npos || base.find('.') != dot) c.nontrivial();
    c.eq(fs::GetAbsolutePath(given), abs, "absolute path");
    c.eq(fs::GetCoreFileName(given), core, "core file name");
    c.eq(fs::GetSuffix(given), suf, "suffix");
    c.eq(fs::GetPathFromFullName(given), isdir ? abs : parent, "directory of the path");
    string ext = name(c, false), add = name(c, false);
    char deli = c.pick({'_', '-', '.'});
    if (!isdir) {
        c.eq(fs::ReplaceSuffix(given, ext), parent.empty() || suf.empty() ? string() : parent + core + "." + ext, "suffix replaced");
        if (!parent.empty() || !exists) {
            string tail = suf.empty() ? "" : "." + suf;
            // joining goes through the real directory
            c.eq(fs::AppendCoreFileName(given, add, deli), parent + core + deli + add + tail, "name appended");
            c.eq(fs::PrefixCoreFileName(given, add, deli), parent + add + deli + core + tail, "name prefixed");
            int64_t n = c.integer(INT64_MIN, INT64_MAX);
            c.eq(fs::AppendCoreFileName(given, (ccgl::vint)n), parent + core + "_" + std::to_string(n) + tail, "number appended");
            c.eq(fs::PrefixCoreFileName(given, (ccgl::vint)n), parent + std::to_string(n) + "_" + core + tail, "number prefixed");
        }
    }
    if (!parent.empty() && parent != "/") {
        string d = parent.substr(0, parent.size() - 1);
        c.eq(fs::ConcatFullName(d, add, ext), d + "/" + add + "." + ext, "concatenated name");
        c.eq(fs::ConcatFullName(parent, add), d + "/" + add, "concatenated name without suffix");
    }
}

// ------------------------------------------------------------------------------------------------ F02
// model of a directory tree: path relative to the case directory -> "d", "f:<text>", "l:<target>"
typedef std::map<string, string> Tree;
void scan(const string& root, const string& rel, Tree& t) {
    DIR* d = opendir((root + "/" + rel).c_str());
    if (!d) return;
    while (dirent* e = readdir(d)) {
        string n = e->d_name;
        if (n == "." || n == "..") continue;
        string r = rel.empty() ? n : rel + "/" + n, p = root + "/" + r;
        struct stat s;
        lstat(p.c_str(), &s);
        if (S_ISDIR(s.st_mode)) { t[r] = "d"; scan(root, r, t); }
        else if (S_ISLNK(s.st_mode)) {
            char b[PATH_MAX];
            ssize_t k = readlink(p.c_str(), b, sizeof b);
            t[r] = "l:" + string(b, k > 0 ? k : 0);
        } else t[r] = "f:" + get(p);
    }
    closedir(d);
}
string show(const Tree& t) {
    string s;
    for (auto& e : t) s += " " + e.first + "=" + e.second;
    return s;
}
bool under(const string& p, const string& d) { return p.compare(0, d.size() + 1, d + "/") == 0; }
bool has_children(const Tree& t, const string& d) {
    for (auto& e : t) if (under(e.first, d)) return true;
    return false;
}
string leaf(const string& p) { size_t i = p.rfind('/'); return i == string::npos ? p : p.substr(i + 1); }
string parent_of(const string& p) { size_t i = p.rfind('/'); return i == string::npos ? string() : p.substr(0, i); }
string lower(string s) { for (auto& ch : s) if (ch >= 'A' && ch <= 'Z') ch += 32; return s; }

void prop_files(Ctx& c) {
    char b[PATH_MAX];
    realpath(c.dir().c_str(), b);
    string root = b;
    Tree m;
    // pieces of names: hidden, without suffix, similar suffixes
    auto fresh = [&](const string& in) {
        static const char* stems[] = {"a", "b", "c d", "x.y", ".h", "-f", "t"};
        static const char* sufs[] = {"", ".tif", ".if", ".asc", ".TIF", ".txt", ".t", "."};
        string n = string(stems[c.below(7)]) + sufs[c.below(8)];
        return in.empty() ? n : in + "/" + n;
    };
    vector<string> dirs = {"in", "out"};
    m["in"] = m["out"] = "d";
    mkdir((root + "/in").c_str(), 0700);
    mkdir((root + "/out").c_str(), 0700);
    size_t k = c.len(0, 12);
    for (size_t i = 0; i < k; i++) {
        string d = c.pick(dirs), p = fresh(d);
        if (m.count(p)) continue;
        switch (c.weighted({5, 3, 2})) {
        case 0: m[p] = "f:" + string(c.below(3), 'q'); put(root + "/" + p, m[p].substr(2)); break;
        case 1: m[p] = "d"; mkdir((root + "/" + p).c_str(), 0700); if (dirs.size() < 8) dirs.push_back(p); break;
        default: {
            string to = root + "/" + c.pick({string("out"), string("out/t"), string("in"), string("missing")});
            m[p] = "l:" + to;
            symlink(to.c_str(), (root + "/" + p).c_str());
        }
        }
    }
    c.note() << "tree:" << show(m);
    size_t steps = c.len(1, 8);
    if (m.size() > 3 && steps > 1) c.nontrivial();
    auto any = [&]() -> string {  // a path: something known, or something missing; never through a link
        if (c.chance(70)) {
            auto it = m.begin();
            std::advance(it, c.below(m.size()));
            return it->first;
        }
        return fresh(c.pick(dirs));
    };
    auto kind = [&](const string& p) {  // following links
        auto it = m.find(p);
        if (it == m.end()) return '-';
        if (it->second[0] != 'l') return it->second[0];
        string to = it->second.substr(2).substr(root.size() + 1);
        auto j = m.find(to);
        if (j == m.end()) return '-';
        return j->second[0] == 'l' ? '?' : j->second[0];
    };
    auto spell = [&](const string& p) { return root + (c.chance(20) ? "/./" : c.chance(10) ? "/in/../" : "/") + p; };
    auto reach = [&](const string& p) {  // its parents exist as directories
        string q = parent_of(p);
        return q.empty() || (m.count(q) && m[q] == "d");
    };
    for (size_t i = 0; i < steps; i++) {
        string p = any(), given;
        if (!reach(p)) continue;
        given = m.count("in") ? spell(p) : root + "/" + p;
        char kd = kind(p);
        if (kd == '?') continue;  // chains of links
        bool link = m.count(p) && m[p][0] == 'l';
        int op = (int)c.weighted({3, 2, 2, 3, 3, 3});
        static const char* ops[] = {"query", "make", "delete file", "find", "clean", "delete directory"};
        c.note() << "; " << ops[op] << " " << p;
        c.label(ops[op]);
        Guard g(c);
        switch (op) {
        case 0: {
            c.eq(fs::FileExists(given), kd != '-', "file exists");
            c.eq(fs::PathExists(given), kd != '-', "path exists");
            c.eq(fs::DirectoryExists(given), kd == 'd', "directory exists");
            string q = any();
            char kq = kind(q);
            if (kq == '?') break;
            vector<string> both = {given, root + "/" + q}, none;
            if (c.coin()) std::swap(both[0], both[1]);
            c.eq(fs::FilesExist(both), kd != '-' && kq != '-', "all files exist");
            c.eq(fs::FilesExist(none), false, "all of no files exist");
            break;
        }
        case 1: {
            if (link) break;
            bool ok = fs::MakeDirectory(given);
            c.eq(ok, kd != 'f', "directory made");
            if (ok && kd == '-') { m[p] = "d"; }
            break;
        }
        case 2: {
            if (link || kd == 'd') break;  // files only
            int r = fs::DeleteExistedFile(given);
            c.eq(r == 0, kd == 'f', "file deleted");
            m.erase(p);
            break;
        }
        case 3: {
            if (link) break;
            string e = c.pick({string("*.*"), string(".*"), string(".tif"), string("tif"), string("*.tif"), string(".asc"), string("*.TXT"), string(".t")});
            vector<string> got, want;
            if (c.chance(20)) got = want = {"kept"};
            fs::FindFiles(given.c_str(), e.c_str(), got);
            c.note() << " " << e;
            if (kd == 'd') {
                for (auto& x : m) {
                    if (parent_of(x.first) != p) continue;
                    string n = leaf(x.first);
                    if (n[0] == '.') continue;
                    size_t dt = n.rfind('.');
                    string suf = dt == string::npos ? "" : lower(n.substr(dt + 1)), es = lower(e.substr(e.rfind('.') == string::npos ? 0 : e.rfind('.') + 1));
                    if (es == "*" || (!suf.empty() && suf == es)) want.push_back(root + "/" + x.first);
                }
            }
            std::sort(got.begin(), got.end());
            std::sort(want.begin(), want.end());
            c.eq(got, want, "files found for " + e);
            break;
        }
        case 4: {
            if (link) break;
            bool ok = fs::CleanDirectory(given);
            if (kd == 'f') { c.eq(ok, false, "a file cleaned as a directory"); break; }
            bool all = true;
            if (kd == '-') m[p] = "d";
            else {
                Tree old = m;
                for (auto& x : old) {
                    if (parent_of(x.first) != p || leaf(x.first)[0] == '.') continue;
                    if (x.second == "d" && has_children(old, x.first)) all = false;
                    else m.erase(x.first);
                }
            }
            c.eq(ok, all, "directory cleaned");
            break;
        }
        default: {
            if (link) break;
            bool sub = c.chance(60);
            bool was = kd == 'd';
            bool ok = sub && c.coin() ? fs::DeleteDirectory(given) : fs::DeleteDirectory(given, sub);
            if (!was) { c.eq(ok, true, "nothing to delete"); break; }
            Tree old = m;
            bool keep = false;
            for (auto& x : old) {
                if (!under(x.first, p)) continue;
                if (sub) { m.erase(x.first); continue; }
                if (parent_of(x.first) == p) {
                    if (x.second == "d") keep = true;
                    else m.erase(x.first);
                }
            }
            if (!keep) m.erase(p);
            if (sub) c.eq(ok, true, "directory deleted");
            c.note() << (sub ? " with" : " without") << " subdirectories";
        }
        }
        g.done();
        Tree now;
        scan(root, "", now);
        if (now != m) c.fail("after " + string(ops[op]) + " " + p + " there is" + show(now) + ", expected" + show(m));
        if (m.size() < 2) break;
    }
}

// ------------------------------------------------------------------------------------------------ F03
void prop_text(Ctx& c) {
    string p = c.dir() + "/t.txt";
    if (c.chance(75)) {
        static const char* pieces[] = {"a", "b c", "#", " ", "\t", "x#y", "1.5", "\r", "\xc3\xa9", "  #", ",", "\v", "\xff"};
        string text;
        vector<string> want;
        size_t n = c.len(0, 20);
        bool skipped = false;
        for (size_t i = 0; i < n; i++) {
            string line;
            for (size_t k = c.len(0, 6); k--;) line += pieces[c.below(13)];
            if (c.chance(2)) line += string(c.below(20000), 'z');
            text += line;
            if (i + 1 < n || c.coin()) text += c.coin() ? "\n" : "\r\n";
            size_t a = line.find_first_not_of(" \t\r\n"), e = line.find_last_not_of(" \t\r\n");
            if (a == string::npos || line[a] == '#') { skipped = true; continue; }
            want.push_back(line.substr(a, e - a + 1));
        }
        put(p, text);
        c.note() << "text " << Ctx::show(text);
        c.label("text file");
        if (skipped && want.size() > 1) c.nontrivial();
        vector<string> got;
        c.eq(fs::LoadPlainTextFile(p, got), true, "text file loaded");
        c.eq(got, want, "lines loaded");
        c.eq(get(p), text, "the file afterwards");
    } else if (c.chance(15)) {
        bool dir = c.coin();
        c.note() << (dir ? "a directory" : "a missing file") << " as text file";
        c.label("unreadable");
        c.nontrivial();
        vector<string> got;
        c.eq(fs::LoadPlainTextFile(dir ? c.dir() : c.dir() + "/missing", got), false, "unreadable text file loaded");
        c.eq(got, vector<string>(), "lines of an unreadable file");
    } else {
        size_t n = c.len(1, 6);
        c.label("log");
        if (n > 1) c.nontrivial();
        string before = c.coin() ? "old\n" : "";
        if (!before.empty()) put(p, before);
        for (size_t i = 0; i < n; i++) {
            string msg = name(c) + (c.chance(20) ? string(c.below(3000), '%') : "") + (c.chance(20) ? "\nmore %s" : "");
            time_t t0 = time(nullptr);
            ccgl::Log(msg, p);
            time_t t1 = time(nullptr);
            string now = get(p);
            bool ok = false;
            for (time_t t = t0; t <= t1 && !ok; t++) {
                char b[64];
                tm x;
                localtime_r(&t, &x);
                asctime_r(&x, b);
                ok = now == before + string(b, strlen(b) - 1) + ": " + msg + "\n";
            }
            if (!ok) c.fail("log after message " + Ctx::show(msg) + " is " + Ctx::show(now) + ", was " + Ctx::show(before));
            before = now;
            ccgl::ModelException e(msg, "f" + msg, msg + "!");
            string want = "Class:" + msg + "\nFunction:f" + msg + "\nMessage:" + msg + "!";
            c.eq(e.ToString(), want, "exception text");
            c.eq(string(e.what()), want, "exception text");
        }
        c.note() << n << " log messages";
        // A log that cannot be opened: the message is dropped, nothing else happens
        if (c.chance(30)) {
            bool dir = c.coin();
            Tree all, after;
            scan(c.dir(), "", all);
            for (size_t k = c.len(1, 4); k > 0; k--) ccgl::Log(name(c), dir ? c.dir() : c.dir() + "/missing/log");
            scan(c.dir(), "", after);
            c.check(after == all, "a log that cannot be opened changed files");
            c.note() << ", and some for " << (dir ? "a directory" : "a file of a missing directory");
        }
    }
}

PBT_STATIC([] {
    add("F01", 60000, 1500000, "an absolute, relative or missing path, or an existing file or directory spelled plainly, with . and .. parts or through a link, dots anywhere in directories and names; non-trivial when a directory has a dot or the name has none or several", prop_paths);
    add("F02", 40000, 1000000, "a tree of up to 14 files, links and directories and 1-8 operations on it; non-trivial with two or more entries and operations", prop_files);
    add("F03", 60000, 1500000, "a text of 0-20 lines, an unreadable path, or 1-6 log messages; non-trivial with a skipped and two loaded lines, an unreadable path, or two messages", prop_text);
});
}  // namespace
