// R15 failing writes: output that reports success has been written in full.
#include "ras.hpp"
#include "subs.hpp"
#include <csignal>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/stat.h>

namespace {
// while it lives, no file can grow beyond the given size (as on a full disk)
struct Full {
    rlimit old;
    explicit Full(uint64_t bytes) {
        signal(SIGXFSZ, SIG_IGN);
        getrlimit(RLIMIT_FSIZE, &old);
        rlimit l = old;
        l.rlim_cur = bytes;
        setrlimit(RLIMIT_FSIZE, &l);
    }
    ~Full() { setrlimit(RLIMIT_FSIZE, &old); }
};
std::map<string, string> files_of(const string& d) {
    std::map<string, string> m;
    if (DIR* p = opendir(d.c_str())) {
        while (dirent* e = readdir(p)) {
            if (e->d_name[0] == '.') continue;
            std::ifstream f(d + "/" + e->d_name, std::ios::binary);
            std::ostringstream s;
            s << f.rdbuf();
            m[e->d_name] = s.str();
        }
        closedir(p);
    }
    return m;
}
template <class T>
void faults(Ctx& c) {
    Grid<T> g = grid<T>(c, 3, 7);
    if (c.chance(8)) {  // larger than the buffers
        g.rows = (int)c.range(20, 60); g.cols = (int)c.range(20, 60);
        fill(c, g, hole_rate(c));
    }
    if (valid_cells(g).empty()) g.v[0][0] = small_value(c, g.nodata);
    bool two_d = g.lyrs > 1 || c.chance(20), pos = c.coin();
    auto r = make_raster(g, two_d);
    if (pos) r->SetCalcPositions();
    int how = (int)c.below(4);  // OutputToFile, combined subsets, separate subsets, a function for arrays
    if (how == 1 || how == 2) {
        std::map<int, int> groups;
        for (int k = -300; k <= 300; k++) groups[k] = (k + 300) % 3;
        if (!r->BuildSubSet(groups)) { how = 0; c.label("no subsets"); }
    }
#ifdef USE_GDAL
    string ext = c.chance(70) ? "asc" : "tif";
#else
    string ext = "asc";
#endif
    ccgl::STRDBL_MAP header = r->GetRasterHeader();
    ccgl::STRING_MAP opts;
    vector<T> plain = g.v[0];
    auto output = [&](const string& d) -> bool {
        const string path = d + "/out." + ext;
        if (how == 1) return r->OutputSubsetToFile(true, true, path);
        if (how == 2) return r->OutputSubsetToFile(true, false, path);
        if (how == 3) return dr::WriteRasterToFile(path, header, opts, plain.data());
        return r->OutputToFile(path);
    };
    static const char* names[] = {"raster", "combined subsets", "separate subsets", "array"};
    string a = c.dir() + "/good", b = c.dir() + "/bad";
    mkdir(a.c_str(), 0755);
    mkdir(b.c_str(), 0755);
    c.note() << g.str() << (two_d ? " 2D" : " 1D") << (pos ? " with positions" : "") << ", " << names[how] << " as " << ext;
    if (!output(a)) { c.label("not writable anyhow"); c.discard(); }
    auto good = files_of(a);
    c.check(!good.empty(), "output succeeds without any file");
    size_t most = 0;
    for (auto& f : good) most = std::max(most, f.second.size());
    if (c.chance(25)) {  // something is there already
        for (auto& f : good) if (c.coin()) std::ofstream(b + "/" + f.first) << "NCOLS 1\n" << string((size_t)c.below(3000), '7');
        c.note() << ", over other files";
    }
    bool blocked = c.chance(15), ok;
    if (blocked) {  // a name is taken by a directory that can not be removed
        auto f = good.begin();
        std::advance(f, c.below(good.size()));
        remove((b + "/" + f->first).c_str());
        mkdir((b + "/" + f->first).c_str(), 0755);
        std::ofstream(b + "/" + f->first + "/x") << "x";
        c.note() << "; directory at " << f->first;
        ok = output(b);
        c.label("blocked");
        c.nontrivial();
        c.check(!ok, "success is reported although a file could not be written");
        remove((b + "/" + f->first + "/x").c_str());
        remove((b + "/" + f->first).c_str());
    } else {
        // anywhere in the largest file, often near its end or at the end of its header
        uint64_t limit = c.coin() ? c.below(most + 1) : most - c.below(std::min<uint64_t>(most, 40));
        if (c.chance(10)) limit = most + c.below(3);
        c.note() << "; no space beyond " << limit << " of " << most << " bytes";
        {
            Full full(limit);
            ok = output(b);
        }
        if (limit < most) c.nontrivial();
        c.label(limit >= most ? "enough space" : ok ? "success" : "failure");
        if (ext == "asc" && limit >= most) c.check(ok, "failure is reported although there was space for all");
        if (ok) {
            auto bad = files_of(b);
            for (auto& f : good) {
                c.check(bad.count(f.first), "success is reported, but " + f.first + " is missing");
                if (bad[f.first] != f.second) c.fail(format("success is reported, but %s has %d of %d bytes or other content", f.first.c_str(), (int)bad[f.first].size(), (int)f.second.size()));
            }
        }
    }
    // afterwards the same can be written as ever
    c.check(output(b), "output fails again after the fault is over");
    c.check(files_of(b) == good, "the files written after the fault differ from those written before");
}
void prop_faults(Ctx& c) { Wide w(c, 50); FOR_TYPES(faults, c) }
PBT_STATIC([] {
    auto& a = add("R15", 8000, 250000, "a raster or its subsets written as ASC or GeoTIFF while files can not grow beyond some size, or a name is taken by a directory; non-trivial when a file can not be written in full", prop_faults);
    a.worker_init = gdal_init;
});
}  // namespace
