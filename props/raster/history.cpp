// R11 copies, R14 histories.
#include "snap.hpp"
#include <dirent.h>
#include <list>

namespace {
template <class T>
struct World {
    typedef clsRasterData<T> R;
    Ctx& c;
    T nodata;
    double dx;
    vector<Grid<T> > grids;                 // of the files
    vector<vector<string> > sets;           // file sets that can be read
    vector<std::unique_ptr<R> > masks;      // outlive the rasters, not changed by the test
    struct Lent { vector<int> flat, idx; vector<int*> rows; };
    std::list<Lent> lent;                   // positions given to rasters
    int n_out = 0;
    explicit World(Ctx& ctx) : c(ctx) {
        nodata = pick_nodata<T>(c);
        Grid<T> base = grid<T>(c, 1, 5);
        base.nodata = nodata;
        fill(c, base, (int)c.pick({0, 10, 30, 50, 90}));
        vector<string> single;
        for (int k = 0; k < 3; k++) {
            Grid<T> g = base;
            if (k && c.coin()) {
                g.rows = (int)c.range(1, 5); g.cols = (int)c.range(1, 5);
                if (c.coin()) { g.xll += g.dx * (double)c.range(-2, 2); g.yll += g.dx * (double)c.range(-2, 2); }
            }
            if (k && c.chance(30)) g.nodata = pick_nodata<T>(c);
            if (k) fill(c, g, (int)c.pick({0, 10, 30, 50, 90}));
            grids.push_back(g);
            single.push_back(write_layer(c, c.dir() + format("/f%d", k), g, 0, 40));
        }
        for (auto& s : single) sets.push_back({s});
        sets.push_back({single[0], single[1]});
        sets.push_back({single[2], single[0], single[1]});
        { std::ofstream f(c.dir() + "/bad.asc"); f << "NCOLS 2\nNROWS 2\nXLLCENTER 0\nYLLCENTER 0\nCELLSIZE 1\nNODATA_VALUE -9999\n1 2\n3 x\n"; }
        { std::ofstream f(c.dir() + "/bad.tif"); f << "II*"; }
        sets.push_back({c.dir() + "/bad.asc"});
        sets.push_back({c.dir() + "/bad.tif"});
        sets.push_back({c.dir() + "/missing.asc"});
        sets.push_back({single[0], c.dir() + "/bad.asc"});
        for (int k = 0; k < 2; k++) {
            Grid<T> m = base;
            if (c.coin()) { m.rows = (int)c.range(1, 6); m.cols = (int)c.range(1, 6); m.xll += m.dx * (double)c.range(-2, 2); m.yll += m.dx * (double)c.range(-2, 2); }
            fill(c, m, (int)c.pick({0, 20, 50}));
            masks.push_back(make_raster(m, false));
            masks.back()->SetCalcPositions();
            if (c.chance(40)) masks.back()->BuildSubSet();
            c.note() << (k ? "mask1 " : "mask0 ") << m.str() << " ";
        }
        for (size_t k = 0; k < grids.size(); k++) c.note() << "file" << k << " " << grids[k].str() << " ";
    }
    struct Reading { vector<string> names; int set; bool calc, ext; R* mask; int mi; double def; };
    Reading reading() {
        Reading x;
        x.set = (int)c.weighted({4, 3, 3, 4, 3, 1, 1, 1, 1});
        x.names = sets[x.set];
        x.calc = c.coin();
        x.mi = (int)c.weighted({3, 3, 2}) - 1;
        x.mask = x.mi < 0 ? nullptr : masks[x.mi].get();
        x.ext = c.coin();
        x.def = c.chance(20) ? 7 : -9999;
        return x;
    }
    string show(const Reading& x) const { return format("read(set %d,%s%s mask %d,%s default %g)", x.set, x.calc ? " calc," : "", "", x.mi, x.ext ? " ext," : "", x.def); }
    bool read(R& r, Reading x) {
        if (x.names.size() == 1 && x.set % 2 == 0) return r.ReadFromFile(x.names[0], x.calc, x.mask, x.ext, x.def);
        return r.ReadFromFiles(x.names, x.calc, x.mask, x.ext, x.def);
    }
    std::unique_ptr<R> source() {
        std::unique_ptr<R> r;
        switch (c.weighted({4, 5, 2, 1, 1})) {
            case 0: {
                Grid<T> g = grid<T>(c, 3, 5);
                bool two_d = g.lyrs > 1 || c.coin();
                c.note() << "{" << g.str() << (two_d ? " 2D" : " 1D") << "}";
                return make_raster(g, two_d);
            }
            case 1: {
                Reading x = reading();
                c.note() << "{" << show(x) << "}";
                if (x.names.size() == 1) r.reset(R::Init(x.names[0], x.calc, x.mask, x.ext, x.def));
                else r.reset(R::Init(x.names, x.calc, x.mask, x.ext, x.def));
                if (r) return r;
                if (x.names.size() == 1) r.reset(new R(x.names[0], x.calc, x.mask, x.ext, x.def));
                else r.reset(new R(x.names, x.calc, x.mask, x.ext, x.def));
                c.label("failed construction");
                return r;
            }
            case 2: {
                R* m = masks[c.below(2)].get();
                int n = std::max(0, m->GetCellNumber()), l = (int)c.range(1, 3);
                bool wrong = c.chance(10);
                c.note() << format("{mask and %d values, %d layers}", n + wrong, l);
                vector<vector<T> > v(n + 1, vector<T>(l));
                vector<T*> p(n + 1);
                for (int i = 0; i <= n; i++) { for (auto& y : v[i]) y = small_value(c, m->GetNoDataValue()); p[i] = v[i].data(); }
                vector<T> flat(n + 1);
                for (int i = 0; i <= n; i++) flat[i] = v[i][0];
                if (l == 1 && c.coin()) r.reset(new R(m, flat.data(), n + wrong));
                else r.reset(new R(m, p.data(), n + wrong, l));
                return r;
            }
            case 3: {
                bool two_d = c.coin();
                c.note() << (two_d ? "{blank 2D}" : "{blank}");
                r.reset(new R(two_d));
                return r;
            }
            default: {
                std::unique_ptr<R> o = source();
                c.note() << "{copy of it}";
                r.reset(c.coin() ? new R(o.get()) : new R(*o));
                return r;
            }
        }
    }
    static string slurp_dir(const string& d) {
        std::map<string, string> m;
        if (DIR* p = opendir(d.c_str())) {
            while (dirent* e = readdir(p))
                if (e->d_name[0] != '.') {
                    std::ifstream s(d + "/" + e->d_name, std::ios::binary);
                    std::ostringstream o;
                    o << s.rdbuf();
                    m[e->d_name] = o.str();
                }
            closedir(p);
        }
        string t;
        for (auto& x : m) t += x.first + ":" + format("%zu:", x.second.size()) + x.second + ";";
        return t;
    }
    // an operation that can be applied to several rasters; gives its result as text
    struct Op { string name; std::function<string(R&)> run; bool reads = false, keeps = false; Reading rd; };
    Op op(bool with_reads) {
        Op o;
        std::ostringstream n;
        switch (c.weighted({6, 3, 2, 2, 3, 3, 4, 3, 2, 3, 2, with_reads ? 4 : 0, 2, 1})) {
            case 0: {
                int i = (int)c.range(0, 6) - 1, j = (int)c.range(0, 6) - 1, l = (int)c.range(0, 3);
                if (c.coin()) l = 1;
                T v = c.chance(20) ? nodata : small_value(c, nodata);
                n << "set(" << i << "," << j << "," << l << ")=" << +v;
                o.run = [=](R& r) { r.SetValue(i, j, v, l); return Ctx::show(+r.GetValue(i, j, l)); };
                break;
            }
            case 1: n << "calc"; o.run = [](R& r) { return Ctx::show(r.SetCalcPositions()); }; break;
            case 2: n << "maskext"; o.run = [](R& r) { return Ctx::show(r.SetUseMaskExt()); }; break;
            case 3: {
                double d = (double)c.pick({-9999, 0, 5});
                n << "default " << d;
                o.run = [=](R& r) { r.SetDefaultValue(d); return string(); };
                break;
            }
            case 4: {
                int how = (int)c.below(3);
                std::map<int, int> g;
                if (c.coin()) for (int k = -3; k < 4; k++) if (c.coin()) g[k] = (int)c.range(0, 3);
                n << (how == 0 ? "build" : how == 1 ? "rebuild" : "release");
                o.run = [=](R& r) { return Ctx::show(how == 0 ? r.BuildSubSet(g) : how == 1 ? r.RebuildSubSet(g) : r.ReleaseSubset()); };
                break;
            }
            case 5: {
                int lyrs = (int)c.range(1, 3);
                uint64_t seed = c.below(1000);
                n << "subdata " << lyrs;
                o.run = [=](R& r) {
                    string s;
                    for (auto& x : r.GetSubset()) {
                        int m = x.second->n_cells;
                        if ((x.first + seed) % 4 == 0) continue;
                        if (lyrs == 1) { vector<double> v(m); for (int i = 0; i < m; i++) v[i] = (double)((seed + i) % 50); s += Ctx::show(x.second->SetData(m, v.data())); }
                        else {
                            vector<vector<float> > v(m, vector<float>(lyrs));
                            vector<float*> p(m);
                            for (int i = 0; i < m; i++) { for (auto& y : v[i]) y = (float)((seed + i) % 50); p[i] = v[i].data(); }
                            s += Ctx::show(x.second->Set2DData(m, lyrs, p.data()));
                        }
                    }
                    return s;
                };
                break;
            }
            case 6: {
                int l = (int)c.range(0, 4), how = (int)c.below(4);
                string k = c.pick({string("mean"), string("MAX"), string("Range"), string("VALID_CELLNUMBER"), string("nothing")});
                n << "stats " << how << " " << k << " " << l;
                o.run = [=](R& r) {
                    std::ostringstream s;
                    s.precision(12);
                    if (how == 0) r.CalculateStatistics();
                    else if (how == 1) r.UpdateStatistics();
                    else if (how == 2) s << r.GetStatistics(k, l);
                    else {
                        int m = -1;
                        double* v = nullptr;
                        r.GetStatistics(k, &m, &v);
                        if (v) for (int i = 0; i < m; i++) s << v[i] << " ";
                    }
                    return s.str();
                };
                break;
            }
            case 7: {
                T v = c.coin() ? (T)0 : small_value(c, nodata);
                n << "nodata:=" << +v;
                o.run = [=](R& r) { r.ReplaceNoData(v); return string(); };
                break;
            }
            case 8: {
                std::map<int, T> m;
                for (int k = -3; k < 4; k++) if (c.coin()) m[k] = small_value(c, nodata);
                n << "reclassify";
                o.run = [=](R& r) { r.Reclassify(m); return string(); };
                break;
            }
            case 9: {
                int how = (int)c.below(3);
                bool origin = c.coin(), comb = c.coin();
                string ext = c.coin() ? "asc" : "tif";
                std::map<ccgl::vint, vector<double> > rc;
                if (c.chance(30)) for (int k = -2; k < 3; k++) rc[k] = vector<double>((size_t)1, (double)c.range(1, 9));
                n << "output " << how << origin << comb << ext;
                o.run = [=](R& r) {
                    string d = c.dir() + format("/o%d", n_out++);
                    mkdir(d.c_str(), 0755);
                    bool ok = how == 0 ? r.OutputToFile(d + "/x." + ext) : how == 1 ? r.OutputSubsetToFile(origin, comb, d + "/x." + ext, rc) : r.OutputToFile(d + "/x." + ext, false);
                    string s = Ctx::show(ok) + slurp_dir(d);
                    return s;
                };
                break;
            }
            case 10: {
                int how = (int)c.below(5);
                string ty = c.pick({string("INT32"), string("FLOAT"), string("DOUBLE"), string("INT16"), string("foo")});
                n << "misc " << how;
                o.run = [=](R& r) {
                    std::ostringstream s;
                    int a = 0, b = 0;
                    T* d = nullptr;
                    T** d2 = nullptr;
                    int** p = nullptr;
                    int* x = nullptr;
                    if (how == 0) s << r.GetRasterData(&a, &d) << r.Get2DRasterData(&a, &b, &d2);
                    else if (how == 1) { r.GetRasterPositionData(&a, &p); s << a; }
                    else if (how == 2) { r.GetRasterPositionData(&a, &x); s << a; }
                    else if (how == 3) { r.SetOutDataType(ty); s << r.GetOutDataType(); }
                    else { ccgl::STRDBL_MAP h = r.GetRasterHeader(); r.SetHeader(h); s << r.GetCellNumber(); }
                    return s.str();
                };
                break;
            }
            case 11: {
                Reading x = reading();
                o.reads = true;
                o.rd = x;
                n << show(x);
                o.run = [=](R& r) { return Ctx::show(read(r, x)); };
                break;
            }
            case 13: {
                int wrong = c.chance(30) ? (int)c.pick({-1, 1, 5}) : 0;
                bool both = c.coin(), none = c.chance(10);
                n << "positions" << (wrong ? " of another number" : none ? " of none" : "");
                o.keeps = true;
                o.run = [=](R& r) {  // its own positions, in arrays of another owner
                    std::ostringstream s;
                    int m = r.GetCellNumber();
                    int** p = r.GetRasterPositionDataPointer();
                    int* x = r.GetRasterPositionIndexPointer();
                    if (!r.ValidateRasterData()) return string("no data");
                    if (none) { s << "=" << r.SetPositions(m, (int**)nullptr) << r.SetPositions(m, (int*)nullptr); return s.str(); }
                    if (!p || !x) {
                        if (!wrong) return string("none");
                        vector<int> v(m + 6, 0);
                        s << r.SetPositions(m + wrong, v.data());
                        return s.str();
                    }
                    lent.emplace_back();
                    auto& l = lent.back();
                    for (int i = 0; i < m + std::max(wrong, 0); i++) { l.flat.push_back(i < m ? p[i][0] : 0); l.flat.push_back(i < m ? p[i][1] : 0); l.idx.push_back(i < m ? x[i] : 0); }
                    for (int i = 0; i < m + std::max(wrong, 0); i++) l.rows.push_back(&l.flat[2 * i]);
                    s << r.SetPositions(m + wrong, l.rows.data());
                    if (both || !wrong) s << r.SetPositions(m + wrong, l.idx.data());
                    return s.str();
                };
                break;
            }
            default: {
                int a = (int)c.range(0, 30) - 1, l = (int)c.range(0, 3), how = (int)c.below(2);
                n << "get " << a << "," << l;
                o.run = [=](R& r) {
                    T* v = how ? new T[std::max(1, r.GetLayers())] : nullptr;
                    T* before = v;
                    if (how) r.GetValueByIndex(a, v); else r.GetValue(a / 5, a % 5, v);
                    (void)before;
                    std::ostringstream s;
                    if (v) for (int i = 0; i < r.GetLayers(); i++) s << +v[i] << " ";
                    delete[] v;
                    s << +r.GetValueByIndex(a, l);
                    return s.str();
                };
            }
        }
        o.name = n.str();
        return o;
    }
    // what a raster must satisfy at any time
    void consistent(R& r, const string& what) {
        if (!r.ValidateRasterData()) return;
        int n = r.GetCellNumber();
        c.check(n > 0, what + ": data of no cell");
        if (!r.GetRasterPositionIndexPointer()) c.eq(n, r.GetRows() * r.GetCols(), what + ": cells");
        sane_positions(c, r, what);
        for (int i = 0; i < r.GetRows(); i++)
            for (int j = 0; j < r.GetCols(); j++) {
                int p = r.GetPosition(i, j);
                c.check(p >= -2 && p < n, what + ": position out of range");
                for (int l = 1; l <= r.GetLayers(); l++) c.eq(+r.GetValue(i, j, l), +(p < 0 ? r.GetNoDataValue() : r.GetValueByIndex(p, l)), what + format(": value at (%d,%d,%d) against its position", i, j, l));
            }
        for (auto& x : r.GetSubset())
            for (int i = 0; i < x.second->n_cells; i++) c.check(x.second->global_[i] >= 0 && x.second->global_[i] < n, what + ": position of a subset out of range");
    }
};

template <class T>
void copies(Ctx& c) {
    World<T> w(c);
    typedef clsRasterData<T> R;
    auto a = w.source();
    for (size_t k = c.len(0, 4); k > 0; k--) { auto o = w.op(true); c.note() << " " << o.name; c.note(); o.run(*a); }
    std::unique_ptr<R> b;
    switch (c.weighted({3, 4, 1})) {
        case 0: c.note() << " copy construct;"; b.reset(c.coin() ? new R(a.get()) : new R(*a)); c.label("copy constructor"); break;
        case 1:
            c.note() << " copy into ";
            b = w.source();
            for (size_t k = c.len(0, 3); k > 0; k--) { auto o = w.op(true); c.note() << " " << o.name; c.note(); o.run(*b); }
            c.note() << ";";
            b->Copy(a.get());
            c.label("copy into a raster");
            break;
        default: {
            Snap<T> s(*a);
            c.note() << " copy to itself;";
            a->Copy(a.get());
            string d = s.diff(Snap<T>(*a));
            c.check(d.empty(), "copying a raster to itself changes it: " + d);
            b.reset(c.coin() ? new R(a.get()) : new R(*a));
            c.label("self copy");
        }
    }
    string d = Snap<T>(*a).diff(Snap<T>(*b));
    c.check(d.empty(), "copy differs from the original: " + d);
    w.consistent(*b, "the copy");
    bool same = true;
    for (size_t k = c.len(1, 6); k > 0; k--) {
        int who = (int)c.weighted({same ? 5 : 0, 2, 2});
        auto o = w.op(false);
        if (who == 0) {
            c.note() << " both " << o.name;
            c.note();
            string x = o.run(*a), y = o.run(*b);
            c.check(x == y, "the copy behaves differently: " + o.name + " gives " + x.substr(0, 300) + " for the original, " + y.substr(0, 300) + " for the copy");
            string e = Snap<T>(*a).diff(Snap<T>(*b));
            c.check(e.empty(), "the copy differs from the original after " + o.name + ": " + e);
        } else {
            R &x = who == 1 ? *a : *b, &y = who == 1 ? *b : *a;
            Snap<T> s(y);
            c.note() << (who == 1 ? " original " : " copy ") << o.name;
            c.note();
            o.run(x);
            string e = s.diff(Snap<T>(y));
            c.check(e.empty(), "changing " + string(who == 1 ? "the original" : "the copy") + " by " + o.name + " changes the other: " + e);
            same = false;
        }
    }
    Snap<T> s(*b);
    c.note() << " delete;";
    a.reset();
    string e = s.diff(Snap<T>(*b));
    c.check(e.empty(), "deleting the original changes the copy: " + e);
    w.consistent(*b, "the copy");
    if (b->ValidateRasterData() && b->GetCellNumber() > 1) c.nontrivial();
}
void prop_copy(Ctx& c) {
    Wide wide(c, 20);
    switch (c.below(3)) { case 0: copies<float>(c); break; case 1: copies<int32_t>(c); break; default: copies<int16_t>(c); break; }
}

template <class T>
void histories(Ctx& c) {
    World<T> w(c);
    typedef clsRasterData<T> R;
    vector<std::unique_ptr<R> > pool;
    vector<string> marks;
    for (auto& m : w.masks) { Snap<T> s(*m); string t; for (auto& x : s.f) t += x.first + "=" + x.second + ";"; marks.push_back(t); }
    pool.push_back(w.source());
    pool.push_back(w.source());
    size_t n = c.len(1, 12);
    for (size_t k = 0; k < n; k++) {
        size_t i = c.below(pool.size());
        R& r = *pool[i];
        Snap<T> other(*pool[1 - i]);
        bool fresh_ok = false;
        switch (c.weighted({12, 2, 1})) {
            case 0: {
                auto o = w.op(true);
                c.note() << " #" << i << " " << o.name;
                c.note();
                Snap<T> was(r);
                string res = o.run(r);
                if (o.keeps) { string d = was.diff(Snap<T>(r)); c.check(d.empty(), "changed by " + o.name + ": " + d); c.label("positions given"); }
                c.note() << "=" << res.substr(0, 4);
                if (o.reads) {
                    // reading does not depend on what the raster held before
                    R fresh;
                    fresh_ok = w.read(fresh, o.rd);
                    c.eq(res, Ctx::show(fresh_ok), "reading into a used raster succeeds as into a new one");
                    if (fresh_ok) {
                        Snap<T> a(r), b(fresh);
                        for (auto* s : {&a, &b}) for (auto it = s->f.begin(); it != s->f.end();) if (it->first.compare(0, 6, "option") == 0) it = s->f.erase(it); else ++it;
                        string d = a.diff(b);
                        c.check(d.empty(), "reading into a used raster differs from reading into a new one: " + d);
                        c.label("re-read");
                    }
                }
                break;
            }
            case 1: c.note() << " #" << i << " copy of the other;"; pool[i]->Copy(pool[1 - i].get()); break;
            default: c.note() << " #" << i << " replaced "; pool[i] = w.source(); break;
        }
        w.consistent(*pool[i], "the raster");
        (void)Snap<T>(*pool[i]);
        string d = other.diff(Snap<T>(*pool[1 - i]));
        c.check(d.empty(), "another raster changed: " + d);
    }
    for (size_t m = 0; m < w.masks.size(); m++) {
        Snap<T> s(*w.masks[m]);
        string t;
        for (auto& x : s.f) t += x.first + "=" + x.second + ";";
        c.check(t == marks[m], "a mask changed: " + t + " was " + marks[m]);
    }
    if (n >= 3) c.nontrivial();
}
void prop_history(Ctx& c) {
    Wide wide(c, 20);
    switch (c.below(3)) { case 0: histories<float>(c); break; case 1: histories<int32_t>(c); break; default: histories<int16_t>(c); break; }
}
PBT_STATIC([] {
    auto& a = add("R11", 20000, 500000, "a raster of any origin and history and its copy, then operations on either or both; non-trivial when more than one cell is stored", prop_copy);
    a.worker_init = gdal_init;
    auto& b = add("R14", 18000, 500000, "two rasters of any origin, two masks, five files (some broken), and 1-12 operations; non-trivial from three operations", prop_history);
    b.worker_init = gdal_init;
});
}  // namespace
