#include "pbt.hpp"

#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <ctime>
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <grp.h>
#include <iostream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {

static const size_t MAXCH = 1 << 16;
static const size_t MSGLEN = 1 << 14;

enum State { IDLE = 0, RUNNING = 1, PASSED = 2, FAILED = 3, DISCARDED = 4, DONE = 5 };

struct Shm {
    std::atomic<uint64_t> beat;
    std::atomic<int> state;
    uint64_t index;
    std::atomic<uint64_t> evals, nontriv, discards;
    uint32_t nch;
    uint64_t ch[MAXCH];
    char msg[MSGLEN];
    char note[MSGLEN];
};

static std::vector<Property>& props() {
    static std::vector<Property> p;
    return p;
}

Property& add(const std::string& id, uint64_t quick, uint64_t thorough, const std::string& rule,
              std::function<void(Ctx&)> fn) {
    static const bool reserved = (props().reserve(64), true);
    (void)reserved;
    Property p;
    p.id = id; p.rule = rule; p.quick_cases = quick; p.thorough_cases = thorough; p.run = fn;
    props().push_back(p);
    return props().back();
}

std::string format(const char* f, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

static uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static uint64_t hash_str(const std::string& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

class Source {
public:
    Shm* shm;
    bool replay = false;
    std::vector<uint64_t> rec;
    uint64_t st = 0;
    uint32_t echo = 0;  // the choices before this one come again
    uint64_t draw(uint64_t n) {
        uint64_t v;
        uint32_t k = shm->nch;
        if (k < echo) {
            v = shm->ch[k];
            if (n && v >= n) v = n - 1;
        } else if (replay) {
            v = k < rec.size() ? rec[k] : 0;
            if (n && v >= n) v = n - 1;
        } else {
            st += 0x9e3779b97f4a7c15ULL;
            uint64_t r = mix(st);
            v = n ? (uint64_t)(((unsigned __int128)r * n) >> 64) : r;
        }
        if (k < MAXCH) { shm->ch[k] = v; shm->nch = k + 1; }
        else throw Discard();
        return v;
    }
};

static std::string g_worker_dir;

uint64_t Ctx::below(uint64_t n) { return n == 1 ? 0 : src_->draw(n); }
int64_t Ctx::range(int64_t lo, int64_t hi) {
    if (lo >= hi) return lo;
    return (int64_t)((uint64_t)lo + below((uint64_t)hi - (uint64_t)lo + 1));
}
bool Ctx::chance(int p) {
    if (p <= 0) return false;
    if (p >= 100) return true;
    return below(100) >= (uint64_t)(100 - p);
}
int64_t Ctx::integer(int64_t lo, int64_t hi) {
    // 0: near "zero" (or lo when zero is outside), 1: log-uniform magnitude, 2: ends, 3: uniform
    int64_t origin = (lo <= 0 && hi >= 0) ? 0 : (lo > 0 ? lo : hi);
    uint64_t up = (uint64_t)hi - (uint64_t)origin, down = (uint64_t)origin - (uint64_t)lo;
    switch (weighted({4, 4, 1, 2})) {
    case 0: {
        uint64_t d = below(10);
        bool neg = down && (!up || chance(40));
        d = std::min(d, neg ? down : up);
        return (int64_t)(neg ? (uint64_t)origin - d : (uint64_t)origin + d);
    }
    case 1: {
        int bits = (int)below(65);
        uint64_t d = bits == 0 ? 0 : (bits == 64 ? below(0) : below(1ULL << bits));
        bool neg = down && (!up || chance(40));
        d = std::min(d, neg ? down : up);
        return (int64_t)(neg ? (uint64_t)origin - d : (uint64_t)origin + d);
    }
    case 2: {
        uint64_t d = std::min<uint64_t>(below(3), (uint64_t)hi - (uint64_t)lo);
        return chance(50) ? (int64_t)((uint64_t)hi - d) : (int64_t)((uint64_t)lo + d);
    }
    default: return (uint64_t)hi - (uint64_t)lo == UINT64_MAX ? (int64_t)below(0) : range(lo, hi);
    }
}
size_t Ctx::len(size_t lo, size_t hi) {
    if (hi <= lo) return lo;
    size_t cap = lo + std::max<size_t>(1, (hi - lo) * (size_t)size_ / 100);
    if (cap > hi) cap = hi;
    if (chance(60)) return lo + below(std::min<size_t>(cap - lo, 4) + 1);
    return lo + below(cap - lo + 1);
}
double Ctx::unit() { return (double)below(1ULL << 53) / 9007199254740992.0; }
size_t Ctx::weighted(std::initializer_list<int> w) {
    int tot = 0;
    for (int x : w) tot += x;
    int64_t r = (int64_t)below(tot);
    size_t i = 0;
    for (int x : w) {
        if (r < x) return i;
        r -= x;
        i++;
    }
    return w.size() - 1;
}
void Ctx::fail(const std::string& m) { throw Failure{m}; }
void Ctx::discard() { throw Discard(); }
static char* live_note = nullptr;
static void set_buf(char* dst, const std::string& s);
std::ostringstream& Ctx::note() {
    if (notes.tellp() > 0) notes << "; ";
    notes.precision(17);
    if (live_note) set_buf(live_note, notes.str());
    return notes;
}
std::string Ctx::show(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c == '\r') r += "\\r";
        else if (c == '"') r += "\\\"";
        else if (c >= 32 && c < 127) r += (char)c;
        else r += format("\\x%02x", c);
        if (r.size() > 600) { r += "..."; break; }
    }
    return r + "\"";
}

static void wipe(const std::string& d) {
    // only ever called on directories below the scratch directory made by this process tree
    DIR* h = opendir(d.c_str());
    if (!h) { unlink(d.c_str()); return; }
    while (dirent* e = readdir(h)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        std::string p = d + "/" + e->d_name;
        struct stat st;
        if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0700); wipe(p); }
        else unlink(p.c_str());
    }
    closedir(h);
    rmdir(d.c_str());
}

size_t Ctx::mark() const { return src_->shm->nch; }
void Ctx::rewind(size_t m) {
    src_->echo = std::max(src_->echo, src_->shm->nch);
    src_->shm->nch = (uint32_t)m;
}
const Property* find_property(const std::string& id) {
    for (auto& p : props()) if (p.id == id) return &p;
    return nullptr;
}
void wipe_dir(const std::string& d) { if (!d.empty()) wipe(d); }

const std::string& Ctx::worker_dir() const { return g_worker_dir; }
const std::string& Ctx::dir() {
    if (dir_.empty()) {
        static uint64_t n = 0;
        dir_ = g_worker_dir + "/c" + std::to_string(n++ % 10);
        wipe(dir_);
        mkdir(dir_.c_str(), 0700);
    }
    return dir_;
}

// not usleep: a harness may replace it for the code under test
static void nap(long us) {
    struct timespec t = {us / 1000000, us % 1000000 * 1000};
    nanosleep(&t, nullptr);
}
static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

struct Outcome {
    int state = PASSED;  // PASSED, FAILED, DISCARDED
    std::string msg, note;
    std::vector<uint64_t> ch;
    std::set<std::string> labels;
    bool nontriv = false;
};

static void set_buf(char* dst, const std::string& s) {
    size_t n = std::min(s.size(), MSGLEN - 1);
    memcpy(dst, s.data(), n);
    dst[n] = 0;
}

// run one case in this process
static void run_case(const Property& p, Source& src, Ctx& c) {
    Shm* m = src.shm;
    m->nch = 0;
    src.echo = 0;
    m->msg[0] = m->note[0] = 0;
    m->state = RUNNING;
    m->beat++;
    int st = PASSED;
    try {
        p.run(c);
    } catch (const Failure& f) {
        set_buf(m->msg, f.msg);
        st = FAILED;
    } catch (const Discard&) {
        st = DISCARDED;
    } catch (const std::exception& e) {
        set_buf(m->msg, std::string("unexpected exception: ") + e.what());
        st = FAILED;
    } catch (...) {
        set_buf(m->msg, "unexpected exception of unknown type");
        st = FAILED;
    }
    set_buf(m->note, c.notes.str());
    if (!c.dir_.empty()) wipe(c.dir_);
    m->state = st;
    m->beat++;
}

static bool g_drop = true;
static void enter_worker(const std::string& dir) {
    g_worker_dir = dir;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    int fd = open("/dev/null", O_RDWR);
    dup2(fd, 0);
    dup2(fd, 1);
    int e = open((dir + "/stderr").c_str(), O_WRONLY | O_CREAT | O_APPEND | O_TRUNC, 0666);
    dup2(e, 2);
    if (geteuid() == 0 && g_drop) {
        if (fchown(e, 65534, 65534)) {}
        if (chown(dir.c_str(), 65534, 65534)) {}
        if (setgroups(0, nullptr)) {}
        if (setgid(65534)) {}
        if (setuid(65534)) {}
        prctl(PR_SET_DUMPABLE, 1);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
    }
    rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (chdir(dir.c_str())) {}
}

static std::string g_root;
static Shm* new_shm() {
    void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shm*)p;
}

static std::string tail_stderr(const std::string& dir) {
    std::ifstream f(dir + "/stderr");
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    size_t a = std::string::npos;
    for (const char* k : {"ERROR: AddressSanitizer", "runtime error:", "ERROR: LeakSanitizer", "ThreadSanitizer", "terminate called"}) {
        size_t q = s.rfind(k);
        if (q != std::string::npos) { a = s.rfind('\n', q); a = a == std::string::npos ? 0 : a + 1; break; }
    }
    if (a == std::string::npos) a = s.size() > 400 ? s.size() - 400 : 0;
    s = s.substr(a, 1500);
    return s;
}

// run one recorded case in a forked child
static Outcome run_forked(const Property& p, const std::vector<uint64_t>& ch, int timeout,
                          const std::function<bool(Ctx&)>* probe = nullptr) {
    static Shm* m = new_shm();
    static int serial = 0;
    std::string dir = g_root + "/f" + std::to_string(serial++ % 4);
    wipe(dir);
    mkdir(dir.c_str(), 0755);
    m->nch = 0; m->state = IDLE; m->msg[0] = m->note[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        enter_worker(dir);
        if (p.worker_init) p.worker_init();
        Source s;
        s.shm = m; s.replay = true; s.rec = ch;
        live_note = m->note;
        Ctx c(&s);
        if (probe) {
            m->state = RUNNING;
            bool r = true;
            try { r = (*probe)(c); } catch (...) { r = true; }
            m->state = r ? FAILED : PASSED;
        } else {
            run_case(p, s, c);
        }
        _exit(0);
    }
    double t0 = now();
    int ws = 0;
    bool to = false;
    while (true) {
        pid_t r = waitpid(pid, &ws, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > timeout) { to = true; kill(pid, SIGKILL); kill(-pid, SIGKILL); waitpid(pid, &ws, 0); break; }
        nap(now() - t0 < 0.05 ? 300 : 3000);
    }
    kill(-pid, SIGKILL);
    Outcome o;
    o.ch.assign(m->ch, m->ch + m->nch);
    o.note = m->note;
    int st = m->state;
    if (to) { o.state = FAILED; o.msg = format("no answer within %d s (hang)", timeout); }
    else if (st == RUNNING || st == IDLE) {
        o.state = FAILED;
        o.msg = WIFSIGNALED(ws) ? format("process killed by signal %d", WTERMSIG(ws)) : format("process ended with status %d", WEXITSTATUS(ws));
        o.msg += "\n" + tail_stderr(dir);
    } else { o.state = st; o.msg = m->msg; }
    wipe(dir);
    return o;
}

static bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

static Outcome shrink(const Property& p, Outcome best, double budget) {
    double end = now() + budget;
    size_t runs = 0;
    auto attempt = [&](std::vector<uint64_t> c) {
        if (now() > end || runs > 6000) return false;
        if (!simpler(c, best.ch)) return false;
        runs++;
        Outcome o = run_forked(p, c, 10);
        if (o.state == FAILED && o.msg.find("(hang)") == std::string::npos && simpler(o.ch, best.ch)) { best = o; return true; }
        return false;
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t k = std::max<size_t>(1, best.ch.size() / 2);; k /= 2) {               // delete blocks
            long i = (long)best.ch.size() - (long)k;
            while (i >= 0 && now() < end) {
                if ((size_t)i + k > best.ch.size()) { i = (long)best.ch.size() - (long)k; continue; }
                std::vector<uint64_t> c = best.ch;
                c.erase(c.begin() + i, c.begin() + i + k);
                if (attempt(c)) progress = true;
                i -= std::max<long>(1, (long)k / 2);
            }
            if (k <= 1) break;
        }
        for (size_t i = 0; i < best.ch.size() && now() < end; i++) {                     // lower values
            if (best.ch[i] == 0) continue;
            std::vector<uint64_t> c = best.ch;
            c[i] = 0;
            if (attempt(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = best.ch[i];
            while (hi - lo > 1 && now() < end && i < best.ch.size()) {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best.ch; c[i] = mid;
                if (attempt(c)) { progress = true; hi = mid; } else lo = mid;
            }
            // also: lower this one and delete something after it (length fields)
            if (i < best.ch.size() && best.ch[i] > 0) {
                for (size_t d = 1; d <= 8 && i + d < best.ch.size(); d++) {
                    c = best.ch; c[i]--;
                    c.erase(c.begin() + i + 1, c.begin() + i + 1 + d);
                    if (attempt(c)) { progress = true; break; }
                }
            }
        }
    }
    return best;
}

static std::string jesc(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c < 32 || c >= 127) r += format("\\u%04x", c);
        else r += (char)c;
    }
    return r + "\"";
}

struct Stats {
    uint64_t evals = 0, discards = 0, nontriv = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
};

static uint64_t hash_choices(Shm* m) {
    uint64_t h = 88172645463325252ULL;
    for (uint32_t i = 0; i < m->nch; i++) h = mix(h ^ m->ch[i]);
    return h;
}

static void worker(const Property& p, Shm* m, int w, int W, uint64_t N, uint64_t seed, double deadline,
                   std::atomic<int>* stop, const std::string& dir) {
    enter_worker(dir);
    if (p.worker_init) p.worker_init();
    Stats s;
    Source src;
    src.shm = m;
    std::set<std::string> sampled;
    for (uint64_t i = w; i < N; i += W) {
        if (*stop || now() > deadline) break;
        m->index = i;
        src.st = mix(mix(seed) ^ hash_str(p.id)) ^ mix(i * 2654435761ULL + 12345);
        Ctx c(&src);
        c.size_ = 1 + (int)((i / W) % 100);
        run_case(p, src, c);
        int st = m->state;
        s.evals++;
        m->evals++;
        if (st == FAILED) { *stop = 1; _exit(10); }
        if (st == DISCARDED) { s.discards++; m->discards++; }
        else {
            std::string ls;
            for (auto& l : c.labels) { s.labels[l]++; ls += l + " "; }
            if (c.nontrivial_) {
                s.nontriv++;
                m->nontriv++;
                if (s.distinct.size() < 4000000) s.distinct.insert(hash_choices(m));
                if (s.samples.size() < 6 && sampled.insert(ls).second) s.samples.push_back("case " + std::to_string(i) + ": " + c.notes.str().substr(0, 700));
            }
        }
        if (s.evals % 64 == 0) {
            off_t o = lseek(2, 0, SEEK_END);
            if (o > 1000000) { if (ftruncate(2, 0)) {} }
        }
    }
    FILE* f = fopen((dir + "/result").c_str(), "w");
    if (f) {
        fprintf(f, "%lu %lu %lu\n", (unsigned long)s.evals, (unsigned long)s.discards, (unsigned long)s.nontriv);
        fprintf(f, "%zu\n", s.distinct.size());
        for (auto h : s.distinct) fprintf(f, "%lx\n", (unsigned long)h);
        fprintf(f, "%zu\n", s.labels.size());
        for (auto& l : s.labels) fprintf(f, "%lu %s\n", (unsigned long)l.second, l.first.c_str());
        fprintf(f, "%zu\n", s.samples.size());
        for (auto& x : s.samples) {
            std::string y = x;
            for (char& ch : y) if (ch == '\n' || ch == '\r') ch = ' ';
            fprintf(f, "%s\n", y.c_str());
        }
        fclose(f);
    }
    m->state = DONE;
    _exit(0);
}

static void merge(Stats& s, const std::string& dir) {
    std::ifstream f(dir + "/result");
    if (!f) return;
    uint64_t a, b, c;
    size_t n;
    f >> a >> b >> c;
    s.evals += a; s.discards += b; s.nontriv += c;
    f >> n;
    for (size_t i = 0; i < n; i++) { uint64_t h; f >> std::hex >> h >> std::dec; s.distinct.insert(h); }
    f >> n;
    for (size_t i = 0; i < n; i++) { uint64_t k; std::string l; f >> k; std::getline(f, l); s.labels[l.substr(1)] += k; }
    f >> n;
    std::string l;
    std::getline(f, l);
    for (size_t i = 0; i < n; i++) { std::getline(f, l); if (s.samples.size() < 12) s.samples.push_back(l); }
}

struct Finding { std::string probe, text; };
static std::vector<Finding> load_findings(const std::string& verif, const std::string& id) {
    std::vector<Finding> v;
    std::ifstream f(verif + "/known_findings.txt");
    std::string l;
    while (std::getline(f, l)) {
        if (l.compare(0, 8, "finding:") != 0) continue;
        std::istringstream is(l.substr(8));
        std::string pr, pb, rest;
        is >> pr >> pb;
        std::getline(is, rest);
        if (pr != "property=" + id || pb.compare(0, 6, "probe=") != 0) continue;
        v.push_back({pb.substr(6), rest.empty() ? rest : rest.substr(1)});
    }
    return v;
}

}  // namespace pbt

using namespace pbt;

int main(int argc, char** argv) {
    std::string id, replay, verif = "/verif", tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
    uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
    double scale = getenv("PBT_SCALE") ? atof(getenv("PBT_SCALE")) : 1.0;
    uint64_t only = UINT64_MAX;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--property") id = nx();
        else if (a == "--tier") tier = nx();
        else if (a == "--seed") seed = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--replay") replay = nx();
        else if (a == "--verif") verif = nx();
        else if (a == "--case") only = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--list") { for (auto& p : props()) printf("%s\n", p.id.c_str()); return 0; }
        else if (a == "--no-drop") g_drop = false;
    }
    (void)only;
    const Property* pp = nullptr;
    for (auto& p : props()) if (p.id == id) pp = &p;
    if (!pp) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 3; }
    const Property& p = *pp;
    double t0 = now();
    signal(SIGPIPE, SIG_IGN);
    umask(022);
    const char* base = getenv("PBT_TMP") ? getenv("PBT_TMP") : "/tmp";
    std::string tmpl = std::string(base) + "/ccglpbt.XXXXXX";
    std::vector<char> tb(tmpl.begin(), tmpl.end());
    tb.push_back(0);
    if (!mkdtemp(tb.data())) { perror("mkdtemp"); return 3; }
    g_root = tb.data();
    chmod(g_root.c_str(), 0755);
    if (!replay.empty()) {
        std::ifstream f(replay);
        std::string k, line;
        std::vector<uint64_t> ch;
        while (std::getline(f, line)) {
            std::istringstream is(line);
            is >> k;
            if (k == "choices:") { uint64_t v; while (is >> v) ch.push_back(v); }
        }
        Outcome o = run_forked(p, ch, 120);
        printf("property=%s replay of %zu choices: %s\n%s\ninput: %s\n", id.c_str(), ch.size(), o.state == FAILED ? "FAILED" : o.state == DISCARDED ? "DISCARDED" : "passed", o.msg.c_str(), o.note.c_str());
        wipe(g_root);
        if (o.state == FAILED) { printf("VIOLATION property=%s replay=%s\n", id.c_str(), replay.c_str()); return 1; }
        return 0;
    }

    std::vector<std::string> known_lines;
    for (auto& kf : load_findings(verif, id)) {
        auto it = p.probes.find(kf.probe);
        if (it == p.probes.end()) continue;
        Outcome o = run_forked(p, {}, 60, &it->second);
        if (o.state == FAILED) {
            std::string l = "KNOWN-FINDING: property=" + id + " " + kf.text;
            known_lines.push_back(l);
            printf("%s\n", l.c_str());
        }
    }

    bool thorough = tier == "thorough";
    uint64_t N = (uint64_t)((thorough ? p.thorough_cases : p.quick_cases) * scale);
    double cap = thorough ? 700 : 90;
    if (getenv("PBT_CAP")) cap = atof(getenv("PBT_CAP"));
    long ncpu = sysconf(_SC_NPROCESSORS_ONLN);
    int W = (int)std::max<long>(1, std::min<long>(p.max_workers, ncpu));
    if (N < (uint64_t)W) N = W;
    std::atomic<int>* stop = (std::atomic<int>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<Shm*> shm(W);
    std::vector<pid_t> pid(W);
    std::vector<std::string> dirs(W);
    Stats total;
    Outcome bad;
    bool found = false;
    uint64_t bad_index = 0;
    std::string unconfirmed;
    double deadline = now() + cap;
    fflush(nullptr);
    for (int w = 0; w < W; w++) {
        shm[w] = new_shm();
        dirs[w] = g_root + "/w" + std::to_string(w);
        mkdir(dirs[w].c_str(), 0755);
        pid[w] = fork();
        if (pid[w] == 0) worker(p, shm[w], w, W, N, seed, deadline, stop, dirs[w]);
        if (pid[w] < 0) { perror("fork"); return 3; }
    }
    std::vector<uint64_t> lastbeat(W, 0);
    std::vector<double> lastt(W, now());
    int alive = W;
    std::vector<bool> dead(W, false);
    std::vector<std::pair<uint64_t, Outcome> > fails;
    while (alive > 0) {
        for (int w = 0; w < W; w++) {
            if (dead[w]) continue;
            int ws;
            pid_t r = waitpid(pid[w], &ws, WNOHANG);
            if (r == pid[w]) {
                dead[w] = true;
                alive--;
                int st = shm[w]->state;
                if (st == DONE) { merge(total, dirs[w]); continue; }
                if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGKILL && st != FAILED) {
                    // ended from outside (memory pressure): not a verdict about the code
                    total.evals += shm[w]->evals;
                    total.nontriv += shm[w]->nontriv;
                    unconfirmed += "a worker was killed from outside; ";
                    continue;
                }
                Outcome o;
                o.state = FAILED;
                o.ch.assign(shm[w]->ch, shm[w]->ch + shm[w]->nch);
                o.msg = shm[w]->msg;
                o.note = shm[w]->note;
                if (st != FAILED) {
                    o.msg = (WIFSIGNALED(ws) ? format("process killed by signal %d", WTERMSIG(ws)) : format("process ended with status %d", WEXITSTATUS(ws)));
                    o.msg += "\n" + tail_stderr(dirs[w]);
                }
                total.evals += shm[w]->evals;
                total.nontriv += shm[w]->nontriv;
                fails.push_back({shm[w]->index, o});
                *stop = 1;
            } else {
                uint64_t b = shm[w]->beat;
                if (b != lastbeat[w]) { lastbeat[w] = b; lastt[w] = now(); }
                else if (now() - lastt[w] > p.case_timeout) {
                    kill(-pid[w], SIGKILL);
                    kill(pid[w], SIGKILL);
                    waitpid(pid[w], &ws, 0);
                    dead[w] = true;
                    alive--;
                    Outcome o;
                    o.state = FAILED;
                    o.ch.assign(shm[w]->ch, shm[w]->ch + shm[w]->nch);
                    o.msg = format("no answer within %d s (hang)", p.case_timeout);
                    fails.push_back({shm[w]->index, o});
                    total.evals += shm[w]->evals;
                    total.nontriv += shm[w]->nontriv;
                    *stop = 1;
                }
            }
        }
        nap(2000);
    }
    std::sort(fails.begin(), fails.end(), [](const std::pair<uint64_t, Outcome>& a, const std::pair<uint64_t, Outcome>& b) { return a.first < b.first; });
    for (auto& f : fails) {
        // a failure counts when it comes back from its recorded choices, in fresh processes
        int again = 0, tries = 0;
        int limit = f.second.msg.find("(hang)") != std::string::npos ? p.case_timeout * 3 : 60;
        Outcome o;
        for (; tries < 30 && again < 3; tries++) {
            o = run_forked(p, f.second.ch, limit);
            if (o.state == FAILED) { again++; if (again == 1) bad = o; }
            if (tries >= 3 && again == 0 && limit > 60) break;
        }
        if (again >= 1) {
            bad_index = f.first;
            found = true;
            if (again >= 3 && tries == 3 && bad.msg.find("(hang)") == std::string::npos)
                bad = shrink(p, bad, thorough ? 120 : 60);
            bad.note = bad.note.empty() ? f.second.note : bad.note;
            break;
        }
        unconfirmed += "case " + std::to_string(f.first) + " failed once and not again in " + std::to_string(tries) + " replays: " + f.second.msg.substr(0, 300) + "; ";
    }
    std::string rp;
    if (found) {
        std::string rd = verif + "/replays";
        mkdir(rd.c_str(), 0755);
        uint64_t h = 7;
        for (auto v : bad.ch) h = mix(h ^ v);
        rp = rd + "/" + id + "-" + format("%016lx", (unsigned long)h) + ".replay";
        std::ofstream f(rp);
        std::string m1 = bad.msg, n1 = bad.note;
        for (char& c : n1) if (c == '\n') c = ' ';
        std::string m2;
        for (char c : m1) { m2 += c; if (c == '\n') m2 += "  | "; }
        f << "property: " << id << "\nseed: " << seed << "\ntier: " << tier << "\ncase: " << bad_index << "\nmessage: " << m2
          << "\ninput: " << n1 << "\nchoices:";
        for (auto v : bad.ch) f << " " << v;
        f << "\n";
        f.close();
        printf("property %s is broken (case %lu, shrunk to %zu choices)\n  %s\n  input: %s\n", id.c_str(), (unsigned long)bad_index, bad.ch.size(), m2.c_str(), n1.c_str());
        printf("VIOLATION property=%s replay=%s\n", id.c_str(), rp.c_str());
    }
    double wall = now() - t0;
    {
        std::string ed = verif + "/evidence";
        mkdir(ed.c_str(), 0755);
        std::ofstream f(ed + "/" + id + ".json");
        f << "{\n \"property\": " << jesc(id) << ",\n \"tier\": " << jesc(thorough ? "thorough" : "quick") << ",\n \"seed\": " << seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << total.evals
          << ",\n  \"distinct_nontrivial\": " << (total.distinct.empty() ? total.nontriv : total.distinct.size())
          << ",\n  \"nontrivial\": " << total.nontriv << ",\n  \"discarded\": " << total.discards
          << ",\n  \"rule\": " << jesc(p.rule) << ",\n  \"labels\": {";
        bool first = true;
        for (auto& l : total.labels) { f << (first ? "" : ", ") << jesc(l.first) << ": " << l.second; first = false; }
        f << "},\n  \"samples\": [";
        if (total.samples.empty() && found) total.samples.push_back(bad.note);
        for (size_t i = 0; i < total.samples.size(); i++) f << (i ? ",\n   " : "\n   ") << jesc(total.samples[i]);
        f << "]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < p.assumptions.size(); i++) f << (i ? ", " : "") << jesc(p.assumptions[i]);
        f << "],\n \"known_findings\": [";
        for (size_t i = 0; i < known_lines.size(); i++) f << (i ? ", " : "") << jesc(known_lines[i]);
        f << "],\n \"notes\": " << jesc(unconfirmed) << ",\n \"wall_s\": " << wall << ",\n \"violations\": [";
        if (found) f << "{\"replay\": " << jesc(rp) << ", \"message\": " << jesc(bad.msg) << "}";
        f << "]\n}\n";
    }
    printf("property %s: %lu cases (%lu non-trivial, %zu distinct, %lu discarded), %.1f s%s%s\n", id.c_str(), (unsigned long)total.evals,
           (unsigned long)total.nontriv, total.distinct.size(), (unsigned long)total.discards, wall, unconfirmed.empty() ? "" : " NOTE ", unconfirmed.c_str());
    if (getenv("PBT_LABELS")) for (auto& l : total.labels) printf("   %8lu %s\n", (unsigned long)l.second, l.first.c_str());
    wipe(g_root);
    return found ? 1 : 0;
}
