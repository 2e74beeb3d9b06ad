// P01 the number of threads does not change results.
#include "ras.hpp"
#include <dirent.h>
#include <omp.h>
#include <sys/stat.h>

namespace {
typedef std::map<string, vector<double> > Result;  // what is observed, in order of the steps

struct Threads {
    explicit Threads(int n) { omp_set_num_threads(n); }
    ~Threads() { omp_set_num_threads(2); }
};
struct Local {  // many values from one choice
    uint64_t s;
    explicit Local(uint64_t seed) : s(seed * 2654435761u + 88172645463325252ull) {}
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
    uint64_t below(uint64_t n) { return (next() >> 11) % n; }
};
template <class T>
void fill_local(Local& l, Grid<T>& g, int holes) {
    g.v.assign(g.lyrs, vector<T>(g.cells()));
    for (auto& y : g.v)
        for (auto& x : y) {
            if ((int)l.below(100) < holes) { x = g.nodata; continue; }
            do {
                int k = (int)l.below(120);
                x = std::numeric_limits<T>::is_signed ? (T)(k - 60) : (T)k;
            } while (x == g.nodata);
        }
}
template <class T>
void observe(Result& res, const string& step, clsRasterData<T>& r) {
    vector<double>& v = res[step];
    v.push_back(r.GetRows()); v.push_back(r.GetCols()); v.push_back(r.GetLayers()); v.push_back(r.GetCellNumber()); v.push_back((double)r.GetNoDataValue());
    if (!r.ValidateRasterData()) { v.push_back(-1e9); return; }
    for (int l = 1; l <= r.GetLayers(); l++)
        for (int i = 0; i < r.GetRows(); i++)
            for (int j = 0; j < r.GetCols(); j++) v.push_back((double)r.GetValue(i, j, l));
    if (int* x = r.GetRasterPositionIndexPointer()) {
        int** p = r.GetRasterPositionDataPointer();
        for (int i = 0; i < r.GetCellNumber(); i++) { v.push_back(x[i]); v.push_back(p[i][0]); v.push_back(p[i][1]); }
    }
}
vector<double> bytes_of(const string& dir) {  // of all files, by name
    std::map<string, string> all;
    if (DIR* p = opendir(dir.c_str())) {
        while (dirent* e = readdir(p)) {
            if (e->d_name[0] == '.') continue;
            std::ifstream f(dir + "/" + e->d_name, std::ios::binary);
            std::ostringstream o;
            o << f.rdbuf();
            all[e->d_name] = o.str();
        }
        closedir(p);
    }
    vector<double> v;
    for (auto& x : all) {
        v.push_back((double)std::hash<string>()(x.first));
        v.push_back((double)x.second.size());
        for (size_t i = 0; i < x.second.size(); i += 6) {
            double d = 0;
            for (size_t k = i; k < i + 6 && k < x.second.size(); k++) d = d * 256 + (unsigned char)x.second[k];
            v.push_back(d);
        }
    }
    return v;
}
struct Step { int op; int a, b; string s; };

template <class T>
struct Plan {
    int source;                  // 0, 1: array, 2: files, 3: files and mask
    Grid<T> g;
    vector<string> names;
    string mask;
    bool calc, ext;
    double def;
    vector<Step> steps;
    string dir;

    Result run(int threads) {
        typedef clsRasterData<T> R;
        Threads t(threads);
        Result res;
        std::unique_ptr<R> m, r;
        if (source == 3) m.reset(R::Init(mask, false));
        if (source < 2) r = make_raster(g, g.lyrs > 1 || source == 1);
        else if (names.size() == 1) r.reset(R::Init(names[0], calc, m.get(), ext, def));
        else r.reset(R::Init(names, calc, m.get(), ext, def));
        res["00 source"].push_back(r ? 1 : 0);
        if (!r) return res;
        observe(res, "00 source", *r);
        int k = 0;
        for (auto& s : steps) {
            string n = format("%02d ", ++k);
            switch (s.op) {
                case 0: r->SetCalcPositions(); observe(res, n + "positions", *r); break;
                case 1: r->ReplaceNoData((T)s.a); observe(res, n + "replacing NoData", *r); break;
                case 2: {
                    std::map<int, T> classes;
                    for (int i = s.a; i < s.a + 40; i++) classes[i] = (T)((i * 7 + s.b) % 100);
                    r->Reclassify(classes);
                    observe(res, n + "reclassification", *r);
                    break;
                }
                case 3: {
                    vector<double>& v = res[n + "statistics"];
                    r->UpdateStatistics();
                    if (r->Is2DRaster()) { for (auto& x : r->GetStatistics2D()) for (int l = 0; l < r->GetLayers(); l++) v.push_back(x.second ? x.second[l] : 0); }
                    else for (auto& x : r->GetStatistics()) v.push_back(x.second);
                    break;
                }
                case 4: {
                    R copy(*r);
                    observe(res, n + "copy", copy);
                    R assigned;
                    assigned.Copy(&copy);
                    observe(res, n + "assigned copy", assigned);
                    break;
                }
                case 5: {
                    string d = dir + "/o";
                    wipe_dir(d);
                    mkdir(d.c_str(), 0755);
                    r->SetOutDataType(s.s);
                    bool ok = r->OutputToFile(d + (s.a ? "/x.tif" : "/x.asc"));
                    res[n + "file of type " + s.s] = bytes_of(d);
                    res[n + "file of type " + s.s].push_back(ok);
                    break;
                }
                default: {
                    int rows = 0, lyrs = 0;
                    T* d1 = nullptr;
                    T** d2 = nullptr;
                    vector<double>& v = res[n + "data"];
                    if (r->Is2DRaster()) {
                        if (r->Get2DRasterData(&rows, &lyrs, &d2)) for (int i = 0; i < rows; i++) for (int l = 0; l < lyrs; l++) v.push_back((double)d2[i][l]);
                    } else if (r->GetRasterData(&rows, &d1)) for (int i = 0; i < rows; i++) v.push_back((double)d1[i]);
                    float** f = nullptr;
                    double* o = nullptr;
                    if (d2) ccgl::utils_array::Initialize2DArray(rows, lyrs, f, d2);
                    if (d1) ccgl::utils_array::Initialize1DArray(rows, o, d1);
                    for (int i = 0; f && i < rows; i++) for (int l = 0; l < lyrs; l++) v.push_back(f[i][l]);
                    for (int i = 0; o && i < rows; i++) v.push_back(o[i]);
                    if (d1 && o) {
                        v.push_back(ccgl::utils_math::Sum(rows, o));
                        double* sv = nullptr;
                        ccgl::utils_math::BasicStatistics(d1, rows, &sv, r->GetNoDataValue());
                        for (int i = 0; sv && i < 6; i++) v.push_back(sv[i]);
                        if (sv) ccgl::utils_array::Release1DArray(sv);
                    }
                    if (f) ccgl::utils_array::Release2DArray(f);
                    if (o) ccgl::utils_array::Release1DArray(o);
                    // Arrays and selections of their own, short and long
                    Local l((unsigned)s.b * 131 + s.a);
                    int len = s.b < 10 ? s.b : s.b < 30 ? s.b * 41 : s.b * 173;
                    vector<T> a((size_t)len + 1);
                    for (T& x : a) x = (T)l.below(100);
                    vector<int> at((size_t)len + 1);
                    for (int& x : at) x = (int)l.below(len + 1);
                    int* idx = at.data();
                    vector<double>& w = res[n + "data of a selection"];
                    vector<float> small((size_t)len + 1);
                    for (int i = 0; i <= len; i++) small[i] = (float)l.below(1000);
                    w.push_back((double)ccgl::utils_math::Sum(len, idx, small.data()));
                    w.push_back((double)ccgl::utils_math::Sum(len, small.data()));
                    if (len > 0) {
                        w.push_back((double)ccgl::utils_math::MaxInArray(a.data(), len));
                        w.push_back((double)ccgl::utils_math::MinInArray(a.data(), len));
                        double* sv = nullptr;
                        ccgl::utils_math::BasicStatistics(small.data(), len, &sv, (float)3);
                        for (int i = 0; sv && i < 6; i++) w.push_back(sv[i]);
                        if (sv) ccgl::utils_array::Release1DArray(sv);
                    }
                }
            }
        }
        return res;
    }
};
template <class T>
void threads(Ctx& c) {
    Plan<T> p;
    p.dir = c.dir();
    Grid<T>& g = p.g;
    p.source = (int)c.below(4);
    int most = p.source < 2 ? 90 : 45;
    g.rows = (int)c.range(1, most);
    g.cols = (int)c.range(1, most);
    g.lyrs = (int)c.range(1, 4);
    place(c, g);
    g.nodata = pick_nodata<T>(c);
    Local l(c.below(1u << 30));
    int holes = hole_rate(c);
    fill_local(l, g, holes);
    c.note() << (p.source < 2 ? "array" : p.source == 2 ? "files" : "files and mask") << format(" %dx%dx%d, %d %% NoData, %s", g.rows, g.cols, g.lyrs, holes, tname<T>());
    if (p.source >= 2) {
        int first = g.lyrs;
        for (int k = 0; k < first; k++) p.names.push_back(write_layer(c, c.dir() + format("/f%d", k), g, k));
        if (p.source == 3) {
            Grid<T> m = g;
            m.lyrs = 1;
            m.rows = std::max(1, g.rows - (int)c.below(4));
            m.cols = std::max(1, g.cols - (int)c.below(4));
            m.xll += g.dx * (double)c.range(-2, 2);
            m.yll += g.dx * (double)c.range(-2, 2);
            fill_local(l, m, (int)c.pick({0, 20, 60}));
            p.mask = write_layer(c, c.dir() + "/mask", m, 0);
        }
        p.calc = c.coin();
        p.ext = c.coin();
        p.def = c.coin() ? -9999. : 3;
    }
    for (int k = (int)c.range(1, 5); k > 0; k--) {
        Step s;
        s.op = (int)c.below(7);
        s.a = (int)c.range(0, 1) * (s.op == 5 ? 1 : 9);
        s.b = (int)c.below(50);
        s.s = c.pick({"FLOAT", "DOUBLE", "INT32", "INT16", "UINT8", "INT8", "UINT16", "INT64", "UINT32", "UINT64"});
        if (s.op == 2) s.a = -20;
        p.steps.push_back(s);
        c.note() << " " << s.op << (s.op == 5 ? s.s : "");
    }
    Result one = p.run(1);
    for (int k = 0; k < 3; k++) {
        int n = (int)c.range(2, 8);
        Result many = p.run(n);
        for (auto& x : one) {
            auto it = many.find(x.first);
            c.check(it != many.end(), format("%d threads: step %s is missing", n, x.first.c_str()));
            const vector<double>& a = x.second, &b = it->second;
            c.eq(b.size(), a.size(), format("%d threads: amount of data of step %s", n, x.first.c_str()));
            bool close = x.first.find("stat") != string::npos || x.first.find("data") != string::npos;
            for (size_t i = 0; i < a.size(); i++)
                if (!(a[i] == b[i] || (close && std::fabs(a[i] - b[i]) <= 1e-9 * (1 + std::fabs(a[i]))) || (a[i] != a[i] && b[i] != b[i])))
                    c.fail(format("item %d of step %s is %.15g with %d threads and %.15g with one", (int)i, x.first.c_str(), b[i], n, a[i]));
        }
        c.eq(many.size(), one.size(), "number of steps");
    }
    c.label(p.source < 2 ? "array" : p.source == 2 ? "files" : "files and mask");
    if (g.cells() > 8 && one.size() > 1) c.nontrivial();
}
void prop_threads(Ctx& c) { FOR_TYPES(threads, c) }
PBT_STATIC([] {
    auto& a = add("P01", 1500, 60000, "a raster of up to 90x90 cells and 1-4 layers from arrays or files, with 1-5 operations, worked on by one and by 2-8 threads; non-trivial with more than eight cells", prop_threads);
    a.worker_init = gdal_init;
    a.max_workers = 4;
});
}  // namespace
