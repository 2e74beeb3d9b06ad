// Subsets as plain data, and the files they are written to.
#pragma once
#include "ras.hpp"
#include <dirent.h>

namespace {
typedef std::map<ccgl::vint, vector<double> > Recls;
struct Sub {
    vector<int> cells;  // of the full grid, row-major
    int r0 = 1 << 20, r1 = -1, c0 = 1 << 20, c1 = -1;
    bool usable = true;
    int lyrs = -1;      // of its data; -1: none
    int decl = -1;      // layer count it declares, known before data is given if inherited
    vector<vector<double> > data;  // [layer][cell]
    void add(int cell, int cols) {
        cells.push_back(cell);
        int r = cell / cols, c = cell % cols;
        r0 = std::min(r0, r); r1 = std::max(r1, r); c0 = std::min(c0, c); c1 = std::max(c1, c);
    }
    int rows() const { return r1 - r0 + 1; }
    int cols() const { return c1 - c0 + 1; }
};
string sub_str(const std::map<int, Sub>& m) {
    std::ostringstream o;
    for (auto& s : m) o << " " << s.first << ":" << s.second.cells.size() << (s.second.usable ? "" : " unusable") << (s.second.lyrs < 0 ? "" : format(" %d layers", s.second.lyrs));
    return o.str();
}
// a written file as plain numbers
struct File {
    int rows = 0, cols = 0;
    double dx = 0, xll = 0, yll = 0, nodata = 0;
    vector<double> v;
};
File load(Ctx& c, const string& path) {
    File f;
    if (path.substr(path.size() - 4) == ".asc") {
        std::ifstream s(path);
        c.check(s.good(), path + " is not written");
        string k;
        double x;
        for (int i = 0; i < 6; i++) {
            c.check((bool)(s >> k >> x), "header of " + path);
            if (k == "NCOLS") f.cols = (int)x;
            else if (k == "NROWS") f.rows = (int)x;
            else if (k == "XLLCENTER") f.xll = x;
            else if (k == "YLLCENTER") f.yll = x;
            else if (k == "CELLSIZE") f.dx = x;
            else if (k == "NODATA_VALUE") f.nodata = x;
        }
        while (s >> x) f.v.push_back(x);
    } else {
#ifdef USE_GDAL
        GDALDataset* ds = (GDALDataset*)GDALOpen(path.c_str(), GA_ReadOnly);
        c.check(ds != nullptr, path + " is not written");
        f.rows = ds->GetRasterYSize();
        f.cols = ds->GetRasterXSize();
        double t[6];
        ds->GetGeoTransform(t);
        f.dx = t[1];
        f.xll = t[0] + t[1] / 2;
        f.yll = t[3] + (f.rows - 0.5) * t[5];
        f.nodata = ds->GetRasterBand(1)->GetNoDataValue();
        f.v.resize((size_t)f.rows * f.cols);
        (void)ds->GetRasterBand(1)->RasterIO(GF_Read, 0, 0, f.cols, f.rows, f.v.data(), f.cols, f.rows, GDT_Float64, 0, 0);
        GDALClose(ds);
#else
        c.fail(path + " is not an ASC file");
#endif
    }
    c.eq((int)f.v.size(), f.rows * f.cols, "number of values in " + path);
    return f;
}
void same_file(Ctx& c, const string& path, const File& w) {
    File f = load(c, path);
    c.eq(f.rows, w.rows, "rows of " + path);
    c.eq(f.cols, w.cols, "columns of " + path);
    c.eq(f.dx, w.dx, "cell size of " + path);
    c.eq(f.xll, w.xll, "x of " + path);
    c.eq(f.yll, w.yll, "y of " + path);
    c.eq(f.nodata, w.nodata, "NoData of " + path);
    for (size_t i = 0; i < w.v.size(); i++)
        if (f.v[i] != w.v[i]) c.fail(format("cell (%d, %d) of %s is %.9g, expected %.9g", (int)i / w.cols, (int)i % w.cols, path.substr(path.rfind('/') + 1).c_str(), f.v[i], w.v[i]));
}
std::set<string> names_in(const string& d) {
    std::set<string> s;
    if (DIR* p = opendir(d.c_str())) {
        while (dirent* e = readdir(p)) if (e->d_name[0] != '.') s.insert(e->d_name);
        closedir(p);
    }
    return s;
}

template <class T, class M = T>
struct Pieces {
    Ctx& c;
    Grid<T> g;
    bool pos;                 // the raster stores valid cells only
    vector<int> stored;
    std::map<int, Sub> subs;
    clsRasterData<T, M>* r;
    Pieces(Ctx& ctx) : c(ctx) {}

    int index(int cell) const { return pos ? (int)(std::lower_bound(stored.begin(), stored.end(), cell) - stored.begin()) : cell; }
    // what the raster's subsets show
    void verify(const string& what) {
        auto& got = r->GetSubset();
        std::ostringstream keys, want;
        for (auto& s : got) keys << s.first << " ";
        for (auto& s : subs) want << s.first << " ";
        c.eq(keys.str(), want.str(), "subsets of " + what);
        for (auto& s : subs) {
            dr::SubsetPositions* p = got[s.first];
            const Sub& w = s.second;
            string n = format("subset %d of %s", s.first, what.c_str());
            c.eq(p->usable, w.usable, n + " usable");
            c.eq(p->n_cells, (int)w.cells.size(), "cells of " + n);
            c.check(p->g_srow == w.r0 && p->g_erow == w.r1 && p->g_scol == w.c0 && p->g_ecol == w.c1,
                    format("extent of %s: rows %d-%d, columns %d-%d, expected %d-%d, %d-%d", n.c_str(), p->g_srow, p->g_erow, p->g_scol, p->g_ecol, w.r0, w.r1, w.c0, w.c1));
            for (int i = 0; i < p->n_cells; i++) {
                int cell = w.cells[i], lr = cell / g.cols - w.r0, lc = cell % g.cols - w.c0;
                c.eq(p->global_[i], index(cell), format("cell %d in ", i) + n);
                c.check(p->local_pos_[i][0] == lr && p->local_pos_[i][1] == lc, format("local position of cell %d in ", i) + n);
                c.eq(p->local_posidx_[i], lr * w.cols() + lc, format("local index of cell %d in ", i) + n);
            }
            ccgl::STRDBL_MAP h;
            p->GetHeader(g.xll, g.yll, g.rows, g.dx, (double)g.nodata, h);
            c.eq((int)h.at("NROWS"), w.rows(), "rows of the header of " + n);
            c.eq((int)h.at("NCOLS"), w.cols(), "columns of the header of " + n);
            c.eq(h.at("XLLCENTER"), g.x(w.c0), "x of the header of " + n);
            c.eq(h.at("YLLCENTER"), g.y(w.r1), "y of the header of " + n);
            c.eq(h.at("CELLSIZE"), g.dx, "cell size of the header of " + n);
            c.eq(h.at("NODATA_VALUE"), (double)g.nodata, "NoData of the header of " + n);
        }
    }
    void set_data(int most) {
        const bool varied = c.chance(12), partial = c.chance(12);
        for (auto& s : subs) {
            if (partial && c.coin()) continue;  // as it was
            int lyrs = varied ? (int)c.range(1, 3) : most;
            Sub& w = s.second;
            dr::SubsetPositions* p = r->GetSubset()[s.first];
            int n = (int)w.cells.size();
            if (c.chance(20)) {  // not usable: refused, and the former data stay
                refused_data(p, n);
                if (w.lyrs > 0) own_data(p, w, s.first, "former data");
            }
            w.data.assign(lyrs, vector<double>(n));
            for (auto& l : w.data) for (auto& x : l) x = (double)c.range(1, 40);
            w.lyrs = w.decl = lyrs;
            w.usable = true;
            if (lyrs == 1 && c.chance(80)) {
                vector<float> v(w.data[0].begin(), w.data[0].end());
                c.eq(p->SetData(n, v.data()), true, "data accepted");
            } else {
                vector<vector<double> > v(n, vector<double>(lyrs));
                vector<double*> q(n);
                for (int i = 0; i < n; i++) { for (int l = 0; l < lyrs; l++) v[i][l] = w.data[l][i]; q[i] = v[i].data(); }
                c.eq(p->Set2DData(n, lyrs, q.data()), true, "data accepted");
            }
            own_data(p, w, s.first, "data");
        }
    }
    void refused_data(dr::SubsetPositions* p, int n) {
        int m = n + (int)c.pick({-1, 1, 2, -n, -n - 1}), lyrs = (int)c.range(1, 3);
        vector<double> v(std::max({m, n, 0}) + 1, 41.);
        vector<vector<double> > v2(v.size(), vector<double>(4, 42.));
        vector<double*> q;
        for (auto& x : v2) q.push_back(x.data());
        switch (c.below(5)) {
            case 0: c.eq(p->SetData(m, v.data()), false, "data of the wrong length accepted"); break;
            case 1: c.eq(p->Set2DData(m, lyrs, q.data()), false, "data of several layers of the wrong length accepted"); break;
            case 2: c.eq(p->SetData(n, (double*)nullptr), false, "no data accepted"); break;
            case 3: c.eq(p->Set2DData(n, lyrs, (double**)nullptr), false, "no data of several layers accepted"); break;
            default: c.eq(p->Set2DData(n, -(int)c.below(3), q.data()), false, "data of no layers accepted"); break;
        }
    }
    void own_data(dr::SubsetPositions* p, const Sub& w, int id, const string& what) {
        vector<T*> full;
        p->Output(g.nodata, full);
        c.eq((int)full.size(), w.lyrs, "layers of the " + what + " of a subset");
        for (int l = 0; l < w.lyrs; l++) {
            vector<T> want(w.rows() * w.cols(), g.nodata);
            for (size_t i = 0; i < w.cells.size(); i++) want[(w.cells[i] / g.cols - w.r0) * w.cols() + w.cells[i] % g.cols - w.c0] = (T)w.data[l][i];
            for (size_t i = 0; i < want.size(); i++) c.eq(+full[l][i], +want[i], format("cell %d of the %s of subset %d", (int)i, what.c_str(), id));
            delete[] full[l];
        }
    }
    // expected values of layer l; key: of the class map
    double value(const Sub& s, int id, int i, int l, bool origin, const Recls& m, double def) const {
        int cell = s.cells[i];
        if (!m.empty()) {
            int key = origin ? (int)g.v[g.lyrs > 1 ? l : 0][cell] : id;
            auto it = m.find(key);
            return it == m.end() ? (double)(T)def : (double)(T)it->second[l];
        }
        return origin ? (double)g.v[l][cell] : (double)(T)s.data[l][i];
    }
    void output() {
        bool origin = c.coin(), comb = c.coin();
        Recls m;
        int mlyrs = 0;
        bool inconsistent = false;
        bool unusable = false;
        for (auto& s : subs) unusable |= !s.second.usable;
        if (c.chance(40) && !(comb && unusable)) {
            mlyrs = (int)c.range(1, 3);
            if (origin && g.lyrs > 1 && mlyrs > g.lyrs && c.chance(80)) mlyrs = g.lyrs;
            int dl = -1;
            for (auto& s : subs) if (s.second.usable && s.second.decl > 0) dl = s.second.decl;
            if (!origin && dl > 0) mlyrs = dl;
            for (int k = 0; k < 8; k++) if (c.coin()) { vector<double> v(mlyrs); for (auto& x : v) x = (double)c.range(50, 90); m[k] = v; }
            if (m.size() > 1 && comb && c.chance(10)) { m.begin()->second.push_back(1); inconsistent = true; }
        }
        double def = c.chance(30) ? (double)c.range(100, 120) : -9999, use = def;
        if (def == -9999) use = r->GetDefaultValue();
        int dl = -1;
        bool data = true, mixed = false, any = false;
        for (auto& s : subs) {
            if (!s.second.usable) continue;
            any = true;
            if (s.second.lyrs < 0) data = false;
            if (dl < 0) dl = s.second.decl;
            else if (dl != s.second.decl) mixed = true;
        }
        bool lacking = !origin && any && !data && m.empty() && c.coin();  // nothing combined, separate output of those with data
        if (!any || (!origin && !data && m.empty() && !lacking)) origin = true, m.clear();
        if (!origin && !m.empty() && ((mixed && !comb) || !any)) m.clear(), origin = true;
        if (m.empty()) inconsistent = comb && lacking;
        else if (origin && g.lyrs > 1 && mlyrs > g.lyrs) inconsistent = true;  // no values to classify: refused
        int lyrs = origin ? m.empty() ? g.lyrs : mlyrs : dl > 0 ? dl : mlyrs;
        if (!origin && mixed && comb) inconsistent = true;
        string dir = c.dir() + format("/o%d", n_out++);
        mkdir(dir.c_str(), 0755);
        string ext = c.chance(70) ? "asc" : "tif", name = dir + "/core." + ext;
#ifndef USE_GDAL
        ext = "asc";  // whatever is asked for
#endif
        c.note() << (origin ? " original" : " data") << (comb ? " combined" : " separate") << (m.empty() ? "" : format(" %d classes of %d layers", (int)m.size(), mlyrs)) << " default " << def << " " << ext;
        c.label(string(origin ? "original" : "data") + (comb ? ", combined" : ", separate") + (m.empty() ? "" : ", reclassified"));
        if (inconsistent) c.label("inconsistent");
        bool ok = (origin || !m.empty() || def != -9999 || !comb || c.coin()) ? r->OutputSubsetToFile(origin, comb, name, m, def) : r->OutputToFile(name, false);
        if (!inconsistent || comb) c.eq(ok, !inconsistent, "output of subsets succeeded");
        if (inconsistent) { c.eq((int)names_in(dir).size(), 0, "files written"); return; }
        std::set<string> want;
        if (comb) {
            for (int l = 0; l < lyrs; l++) {
                File f;
                f.rows = g.rows; f.cols = g.cols; f.dx = g.dx; f.xll = g.xll; f.yll = g.yll; f.nodata = (double)g.nodata;
                f.v.assign(g.cells(), (double)g.nodata);
                for (auto& s : subs)
                    for (size_t i = 0; i < s.second.cells.size(); i++) {
                        double& x = f.v[s.second.cells[i]];
                        if (s.second.usable) x = value(s.second, s.first, (int)i, l, origin, m, use);
                        else if (use != (double)g.nodata) x = (double)(T)use;
                    }
                string n = lyrs > 1 ? format("0_core_%d.", l + 1) + ext : "0_core." + ext;
                want.insert(n);
                same_file(c, dir + "/" + n, f);
            }
        } else {
            for (auto& s : subs) {
                if (!s.second.usable || (lacking && s.second.lyrs < 0)) continue;
                const Sub& w = s.second;
                int ll = origin ? lyrs : w.decl > 0 ? w.decl : mlyrs;
                for (int l = 0; l < ll; l++) {
                    File f;
                    f.rows = w.rows(); f.cols = w.cols(); f.dx = g.dx; f.xll = g.x(w.c0); f.yll = g.y(w.r1); f.nodata = (double)g.nodata;
                    f.v.assign(f.rows * f.cols, (double)g.nodata);
                    for (size_t i = 0; i < w.cells.size(); i++)
                        f.v[(w.cells[i] / g.cols - w.r0) * f.cols + w.cells[i] % g.cols - w.c0] = value(w, s.first, (int)i, l, origin, m, use);
                    string n = format("%d_core", s.first) + (ll > 1 ? format("_%d.", l + 1) : ".") + ext;
                    want.insert(n);
                    same_file(c, dir + "/" + n, f);
                }
            }
        }
        c.check(names_in(dir) == want, "other files than those of the subsets are written");
        if (subs.size() > 1 && g.cells() > 3) c.nontrivial();
    }
    void unchanged(const string& what) {
        same_header(c, *r, g, what);
        same_cells(c, *r, g, what);
        sane_positions(c, *r, what);
    }
    int n_out = 0;
};
template <class T>
void classes(Ctx& c, Grid<T>& g, int holes) {
    for (auto& l : g.v)
        for (auto& x : l) {
            x = c.chance(holes) ? g.nodata : (T)(c.range(0, 6) + (std::is_floating_point<T>::value && c.chance(30) ? 0.5 : 0));
            if (x == g.nodata && !c.chance(holes)) x = (T)3;
        }
}
template <class T>
std::map<int, Sub> partition(const Grid<T>& g, const std::map<int, int>& groups) {
    std::map<int, Sub> m;
    for (int i = 0; i < g.cells(); i++) {
        if (g.v[0][i] == g.nodata) continue;
        int k = (int)g.v[0][i];
        auto it = groups.find(k);
        m[it == groups.end() ? k : it->second].add(i, g.cols);
    }
    return m;
}
std::map<int, int> some_groups(Ctx& c) {
    std::map<int, int> m;
    if (c.coin()) for (int k = 0; k < 7; k++) if (c.coin()) m[k] = (int)c.range(0, 9);
    return m;
}
// a raster read with a mask that has subsets: its subsets are the mask's groups, with at least all
// valid cells of the raster and at most all stored ones
template <class T, class M>
void observe(Ctx& c, clsRasterData<T, M>& r, const Grid<M>& m, const std::map<int, Sub>& msubs, Pieces<T, M>& p, std::set<int>& seen) {
    // what the raster shows now
    p.r = &r;
    p.g.rows = r.GetRows(); p.g.cols = r.GetCols(); p.g.lyrs = r.GetLayers();
    p.g.dx = r.GetCellWidth(); p.g.xll = r.GetXllCenter(); p.g.yll = r.GetYllCenter(); p.g.nodata = r.GetNoDataValue();
    p.g.v.assign(p.g.lyrs, vector<T>(p.g.cells()));
    for (int l = 0; l < p.g.lyrs; l++) for (int i = 0; i < p.g.cells(); i++) p.g.v[l][i] = r.GetValue(i / p.g.cols, i % p.g.cols, l + 1);
    p.pos = r.PositionsCalculated();
    p.stored = positions_of(r);
    std::map<int, int> group_of;  // cell of the raster -> group
    for (auto& s : msubs)
        for (int cell : s.second.cells) {
            int i, j;
            if (p.g.locate(m.x(cell % m.cols), m.y(cell / m.cols), i, j)) group_of[i * p.g.cols + j] = s.first;
        }
    for (auto& x : r.GetSubset()) {
        Sub s;
        for (int i = 0; i < x.second->n_cells; i++) {
            int gi = x.second->global_[i];
            c.check(gi >= 0 && gi < r.GetCellNumber(), format("position %d of subset %d is beyond the %d stored cells", gi, x.first, r.GetCellNumber()));
            int cell = p.pos ? p.stored[gi] : gi;
            c.check(group_of.count(cell) && group_of[cell] == x.first, format("cell (%d, %d) is in subset %d, but not in this group of the mask", cell / p.g.cols, cell % p.g.cols, x.first));
            c.check(seen.insert(cell).second, "a cell is in two subsets");
            s.add(cell, p.g.cols);
        }
        // the extent may be larger where cells of the group have no value
        c.check(x.second->g_srow <= s.r0 && x.second->g_erow >= s.r1 && x.second->g_scol <= s.c0 && x.second->g_ecol >= s.c1, format("extent of subset %d does not cover its cells", x.first));
        s.r0 = x.second->g_srow; s.r1 = x.second->g_erow; s.c0 = x.second->g_scol; s.c1 = x.second->g_ecol;
        c.check(s.r0 >= 0 && s.r1 < p.g.rows && s.c0 >= 0 && s.c1 < p.g.cols, format("extent of subset %d is beyond the raster", x.first));
        s.usable = x.second->usable;
        s.decl = p.g.lyrs;
        // data taken over with the cells
        dr::SubsetPositions* q = x.second;
        if (q->n_lyrs == 1 ? q->data_ != nullptr : q->data2d_ != nullptr) {
            const Sub& ms = msubs.at(x.first);
            c.eq(q->n_lyrs, ms.lyrs, format("layers of the data of subset %d taken over from the mask", x.first));
            s.lyrs = q->n_lyrs;
            s.data.assign(s.lyrs, vector<double>(s.cells.size()));
            for (size_t i = 0; i < s.cells.size(); i++) {
                int mi = -1, mj = -1;
                c.check(m.locate(p.g.x(s.cells[i] % p.g.cols), p.g.y(s.cells[i] / p.g.cols), mi, mj), "a cell of a subset is beyond the mask");
                size_t k = (size_t)(std::lower_bound(ms.cells.begin(), ms.cells.end(), mi * m.cols + mj) - ms.cells.begin());
                for (int l = 0; l < s.lyrs; l++) {
                    s.data[l][i] = ms.data[l][k];
                    c.eq(s.lyrs == 1 ? q->data_[i] : q->data2d_[i][l], s.data[l][i], format("value %d of layer %d of the data of subset %d taken over from the mask", (int)i, l + 1, x.first));
                }
            }
        }
        p.subs[x.first] = s;
    }
    for (int i = 0; i < p.g.cells(); i++)
        if (p.g.v[0][i] != p.g.nodata && group_of.count(i))
            c.check(seen.count(i), format("valid cell (%d, %d) of group %d of the mask is in no subset", i / p.g.cols, i % p.g.cols, group_of[i]));
}
}  // namespace
