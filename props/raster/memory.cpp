// R01 cell access, R02 coordinates, R03 valid positions, R12 reclassification, R13 statistics: in memory.
#include "ras.hpp"

namespace {
// ------------------------------------------------------------------------------------------------ R01
template <class T>
struct Machine {
    Ctx& c;
    Grid<T> g;
    bool two_d;
    bool pos = false;           // positions calculated
    vector<int> valid;          // then: the valid cells
    std::unique_ptr<clsRasterData<T> > r;
    Machine(Ctx& ctx) : c(ctx) {
        g = grid<T>(c, 4);
        two_d = g.lyrs > 1 || c.chance(30);
        r = make_raster(g, two_d);
        c.note() << g.str() << (two_d ? " 2D" : " 1D") << ":";
    }
    bool empty() const { return pos && valid.empty(); }
    bool inside(int i, int j) const { return i >= 0 && i < g.rows && j >= 0 && j < g.cols; }
    int index(int i, int j) const {  // expected GetPosition
        if (!inside(i, j) || empty()) return -2;
        if (!pos) return i * g.cols + j;
        auto it = std::lower_bound(valid.begin(), valid.end(), i * g.cols + j);
        return it != valid.end() && *it == i * g.cols + j ? (int)(it - valid.begin()) : -1;
    }
    T value(int i, int j, int l) const {
        if (!inside(i, j) || l < 1 || l > g.lyrs || index(i, j) < 0) return g.nodata;
        return g.at(i, j, l - 1);
    }
    int cells() const { return pos ? (int)valid.size() : g.cells(); }
    T value_by_index(int k, int l) const {
        if (k < 0 || k >= cells() || l < 1 || l > g.lyrs) return g.nodata;
        return g.v[l - 1][pos ? valid[k] : k];
    }
    void calc() {
        if (pos) return;
        valid = valid_cells(g);
        pos = true;
        drop_invalid(g);
    }
    void array(T* got, bool null, const std::function<T(int)>& want, const string& what) {
        if (null) { c.check(got == nullptr, what + " must give a null array"); return; }
        c.check(got != nullptr, what + " gives no array");
        for (int l = 0; l < g.lyrs; l++) c.eq(+got[l], +want(l + 1), what + format(", layer %d", l + 1));
    }
    void step() {
        int i = (int)c.range(0, g.rows + 1) - 1, j = (int)c.range(0, g.cols + 1) - 1, l = (int)c.range(0, g.lyrs + 1);
        if (c.chance(60)) l = 1 + (int)c.below(g.lyrs);
        int k = (int)c.range(0, g.cells() + 1) - 1;
        switch (c.weighted({8, 4, 3, 4, 2, 3, 1, 1, 1})) {
            case 0: {
                T v = c.chance(10) ? g.nodata : small_value(c, g.nodata);
                c.note() << format(" set(%d,%d,%d)=", i, j, l) << +v;
                r->SetValue(i, j, v, l);
                if (index(i, j) >= 0 && l >= 1 && l <= g.lyrs) g.at(i, j, l - 1) = v;
                break;
            }
            case 1:
                c.eq(+r->GetValue(i, j, l), +value(i, j, l), format("value at (%d,%d) of layer %d", i, j, l));
                c.eq(r->IsNoData(i, j, l), value(i, j, l) == g.nodata, format("NoData at (%d,%d) of layer %d", i, j, l));
                break;
            case 2: {
                T* a = c.coin() ? new T[g.lyrs] : nullptr;
                r->GetValue(i, j, a);
                array(a, !inside(i, j) || empty(), [&](int y) { return value(i, j, y); }, format("values at (%d,%d)", i, j));
                delete[] a;
                break;
            }
            case 3:
                c.eq(+r->GetValueByIndex(k, l), +value_by_index(k, l), format("value of cell %d of layer %d", k, l));
                break;
            case 4: {
                T* a = c.coin() ? new T[g.lyrs] : nullptr;
                r->GetValueByIndex(k, a);
                array(a, k < 0 || k >= cells(), [&](int y) { return value_by_index(k, y); }, format("values of cell %d", k));
                delete[] a;
                break;
            }
            case 5: {
                int p = r->GetPosition(i, j), w = index(i, j);
                if (empty()) c.check(p < 0, "position in a raster without valid cells");
                else c.eq(p, w, format("position of (%d,%d)", i, j));
                break;
            }
            case 6: {
                bool was = pos;
                c.note() << " calc";
                if (c.coin()) {
                    bool ok = r->SetCalcPositions();
                    if (was) c.eq(ok, false, "calculating positions again");
                    else c.eq(ok, true, "calculating positions");
                    calc();
                } else if (!empty()) {
                    int n = -7;
                    int** p = nullptr;
                    int* x = nullptr;
                    if (c.coin()) { r->GetRasterPositionData(&n, &p); if (cells()) r->GetRasterPositionData(&n, &x); }
                    else { r->GetRasterPositionData(&n, &x); if (cells()) r->GetRasterPositionData(&n, &p); }
                    calc();
                    if (!empty()) {
                        c.eq(n, cells(), "number of positions");
                        for (int q = 0; q < n; q++) {
                            c.eq(x[q], valid[q], format("index of valid cell %d", q));
                            c.check(p[q][0] == valid[q] / g.cols && p[q][1] == valid[q] % g.cols, format("row and column of valid cell %d", q));
                        }
                    }
                }
                c.eq(r->PositionsCalculated(), true, "positions calculated");
                c.label(was ? "calculated again" : "calculated");
                break;
            }
            case 7: {
                int n = -7, ly = -7;
                T* d = nullptr;
                T** d2 = nullptr;
                c.eq(r->GetRasterData(&n, &d), !two_d && !empty(), "1D data available");
                if (d) {
                    c.eq(n, cells(), "length of the data");
                    for (int q = 0; q < n; q++) c.eq(+d[q], +value_by_index(q, 1), format("data of cell %d", q));
                }
                c.eq(r->Get2DRasterData(&n, &ly, &d2), two_d && !empty(), "2D data available");
                if (d2) {
                    c.eq(n, cells(), "length of the data");
                    c.eq(ly, g.lyrs, "layers of the data");
                    for (int q = 0; q < n; q++)
                        for (int y = 0; y < ly; y++) c.eq(+d2[q][y], +value_by_index(q, y + 1), format("data of cell %d, layer %d", q, y + 1));
                }
                break;
            }
            case 8:
                full();
                break;
        }
    }
    void full() {
        c.eq(r->Is2DRaster(), two_d, "dimension");
        same_header(c, *r, g, "the raster");
        c.eq(r->GetCellNumber(), cells(), "number of cells");
        c.eq(r->GetDataLength(), cells() * g.lyrs, "data length");
        c.eq((int)r->GetRasterHeader().at(dr::HEADER_RS_CELLSNUM), cells(), "number of cells in the header");
        same_cells(c, *r, g, "the raster");
        sane_positions(c, *r, "the raster");
    }
};
template <class T>
void access(Ctx& c) {
    Machine<T> m(c);
    size_t n = c.len(1, 30);
    for (size_t i = 0; i < n; i++) m.step();
    m.full();
    if (n > 2 && m.g.cells() > 1) c.nontrivial();
    c.label(tname<T>());
}
void prop_access(Ctx& c) { Wide w(c, 25); FOR_TYPES(access, c) }

// ------------------------------------------------------------------------------------------------ R02
template <class T>
void coordinates(Ctx& c) {
    Grid<T> g = grid<T>(c, 1, 12);
    if (c.chance(3)) {  // long in one direction
        (c.coin() ? g.rows : g.cols) = (int)c.range(100, 2000);
        if (g.cells() > 4000) g.rows = std::min(g.rows, 2000 / std::min(g.rows, g.cols)), g.cols = std::min(g.cols, 2000);
        vector<T> v = g.v[0];
        g.v[0].resize(g.cells());
        for (int i = 0; i < g.cells(); i++) g.v[0][i] = v[i % v.size()];
        c.label("long");
    }
    if (c.chance(40)) g.v[0].assign(g.cells(), small_value(c, g.nodata));
    bool exact = c.coin();
    if (!exact) {  // any georeference; then points within a millionth of a cell's border are left out
        g.dx = c.pick({0.1, 1 / 3., 28.51, 90.7, 1e-4, 1e5 / 7});
        g.xll = c.integer(-1000000, 1000000) / 7.;
        g.yll = c.integer(-10000000, 10000000) / 3.;
        c.label("any georeference");
    } else {
        c.label("borders");
    }
    auto r = make_raster(g, c.coin());
    Grid<T> one = grid<T>(c, 1, 3);
    auto elsewhere = make_raster(one, c.coin());  // another raster, asked about the header of this one
    bool pos = c.coin();
    if (pos) r->SetCalcPositions();
    c.note() << g.str() << (pos ? " with positions" : "");
    vector<int> valid = valid_cells(g);
    if (g.cells() > 3) c.nontrivial();
    ccgl::STRDBL_MAP h = r->GetRasterHeader();
    for (int k = 0; k < 12; k++) {
        int i = (int)c.range(0, g.rows + 2) - 1, j = (int)c.range(0, g.cols + 2) - 1;
        double fx, fy;  // offset from the centre, in cells
        if (exact) {
            const double near = 0.5 - 1. / (1 << 24);  // exact in any place
            fx = c.pick({0., -0.25, 0.25, 0.5, -0.5, near, -near});
            fy = c.pick({0., -0.25, 0.25, 0.5, -0.5, near, -near});
        } else {
            fx = c.range(-499999, 499999) / 1000000.;
            fy = c.range(-499999, 499999) / 1000000.;
        }
        double x = g.xll + (j + fx) * g.dx, y = g.yll + (g.rows - 1 - i + fy) * g.dx;
        // half-open cells
        int wi = i, wj = j;
        if (fx == 0.5) wj = j + 1;
        if (fy == -0.5) wi = i + 1;
        bool in = wi >= 0 && wi < g.rows && wj >= 0 && wj < g.cols;
        string at = format("(%.17g, %.17g), %g and %g cells off the centre of row %d, column %d", x, y, fx, fy, i, j);
        dr::ROW_COL p = c.chance(30) ? elsewhere->GetPositionByCoordinate(x, y, &h) : r->GetPositionByCoordinate(x, y, c.coin() ? &h : nullptr);
        if (in) c.check(p.first == wi && p.second == wj, format("cell at %s: got (%d, %d)", at.c_str(), p.first, p.second));
        else c.check(p.first == -1 && p.second == -1, format("cell at %s, outside: got (%d, %d)", at.c_str(), p.first, p.second));
        int want = -2;
        if (in && !(pos && valid.empty())) {
            want = wi * g.cols + wj;
            if (pos) {
                auto it = std::lower_bound(valid.begin(), valid.end(), want);
                want = it != valid.end() && *it == want ? (int)(it - valid.begin()) : -1;
            }
        }
        int got = r->GetPosition(x, y);
        c.eq(got, want, "data position at " + at);
        if (exact && std::fabs(x) < 1e5 && std::fabs(y) < 1e5) {  // representable in single precision
            if ((double)(float)x == x && (double)(float)y == y) c.eq(r->GetPosition((float)x, (float)y), want, "data position (single precision) at " + at);
        }
        if (in) {
            dr::XY_COOR q = r->GetCoordinateByRowCol(wi, wj);
            double cx = g.xll + wj * g.dx, cy = g.yll + (g.rows - 1 - wi) * g.dx;
            c.check(std::fabs(q.first - cx) <= 1e-9 * (std::fabs(cx) + g.dx) && std::fabs(q.second - cy) <= 1e-9 * (std::fabs(cy) + g.dx),
                    format("centre of (%d, %d): got (%.17g, %.17g), expected (%.17g, %.17g)", wi, wj, q.first, q.second, cx, cy));
            dr::ROW_COL back = r->GetPositionByCoordinate(q.first, q.second);
            c.check(back.first == wi && back.second == wj, format("the centre of (%d, %d) lies in (%d, %d)", wi, wj, back.first, back.second));
        }
    }
}
void prop_coordinates(Ctx& c) { FOR_TYPES(coordinates, c) }

// ------------------------------------------------------------------------------------------------ R03
template <class T>
void positions(Ctx& c) {
    Grid<T> g = grid<T>(c, 3, 20);
    if (g.lyrs > 1 && c.coin()) {  // layers of different validity
        for (int l = 1; l < g.lyrs; l++)
            for (auto& x : g.v[l]) x = c.coin() ? g.nodata : small_value(c, g.nodata);
    }
    bool two_d = g.lyrs > 1 || c.chance(30);
    auto r = make_raster(g, two_d);
    vector<int> valid = valid_cells(g);
    c.note() << g.str() << (two_d ? " 2D" : " 1D");
    if (valid.size() > 1 && (int)valid.size() < g.cells()) c.nontrivial();
    c.eq(r->PositionsCalculated(), false, "positions of a fresh raster calculated");
    same_cells(c, *r, g, "the fresh raster");
    c.eq(r->SetCalcPositions(), true, "calculating positions");
    Grid<T> w = g;
    drop_invalid(w);
    same_header(c, *r, w, "the raster");
    same_cells(c, *r, w, "the raster with positions");
    c.eq(r->GetCellNumber(), (int)valid.size(), "number of valid cells");
    c.eq((int)r->GetRasterHeader().at(dr::HEADER_RS_CELLSNUM), (int)valid.size(), "number of valid cells in the header");
    sane_positions(c, *r, "the raster");
    if (!valid.empty()) {
        c.eq(positions_of(*r), valid, "valid positions");
        for (size_t k = 0; k < valid.size(); k++) {
            c.eq(r->GetPosition(valid[k] / g.cols, valid[k] % g.cols), (int)k, "data position of a valid cell");
            for (int l = 0; l < g.lyrs; l++) c.eq(+r->GetValueByIndex((int)k, l + 1), +g.v[l][valid[k]], format("valid cell %d of layer %d", (int)k, l + 1));
        }
        c.check(r->PositionsAllocated(), "positions are owned by the raster");
    }
    c.eq(r->SetCalcPositions(), false, "calculating positions again");
    same_cells(c, *r, w, "the raster with positions");
}
void prop_positions(Ctx& c) { Wide w(c, 25); FOR_TYPES(positions, c) }

// ------------------------------------------------------------------------------------------------ R12
template <class T>
void reclassify(Ctx& c) {
    Grid<T> g = grid<T>(c, 3);
    for (auto& l : g.v)
        for (auto& x : l) if (x != g.nodata) { x = (T)(c.below(6) + (std::is_floating_point<T>::value && c.coin() ? 0.25 : 0)); if (x == g.nodata) x = (T)7; }
    if (std::is_floating_point<T>::value && g.nodata == (T)-1.5) g.nodata = (T)-1, g.v.assign(g.lyrs, vector<T>(g.cells(), (T)3));
    bool two_d = g.lyrs > 1 || c.chance(30);
    auto r = make_raster(g, two_d);
    bool pos = c.coin();
    if (pos) {
        r->SetCalcPositions();
        drop_invalid(g);
    }
    vector<int> valid = valid_cells(g);
    bool empty = pos && valid.empty();
    c.note() << g.str() << (pos ? " with positions" : "") << ":";
    auto stored = [&](int i) { return !pos || std::binary_search(valid.begin(), valid.end(), i); };
    size_t n = c.len(1, 5);
    for (size_t k = 0; k < n; k++) {
        if (c.coin()) {
            std::map<int, T> m;
            size_t e = c.len(0, 8);
            for (size_t q = 0; q < e; q++) m[(int)c.range(0, 8)] = c.chance(10) ? g.nodata : (T)c.range(0, 9);
            if (c.chance(20)) m[(int)g.nodata] = (T)5;
            c.note() << " reclassify{";
            for (auto& x : m) c.note() << x.first << ":" << +x.second << " ";
            c.note() << "}";
            c.label("reclassify");
            if (m.size() > 1) c.nontrivial();
            r->Reclassify(m);
            for (auto& l : g.v)
                for (int i = 0; i < g.cells(); i++) {
                    if (!stored(i)) continue;
                    auto it = m.find((int)l[i]);
                    l[i] = it == m.end() ? g.nodata : it->second;
                }
        } else {
            T v = c.chance(10) ? g.nodata : small_value(c, g.nodata);
            c.note() << " nodata->" << +v;
            c.label("replace NoData");
            r->ReplaceNoData(v);
            for (auto& l : g.v)
                for (auto& x : l) if (x == g.nodata) x = v;
            g.nodata = v;
            c.eq(r->GetDefaultValue(), (double)v, "default value");
        }
        if (empty) { c.label("no valid cell"); g.v.assign(g.lyrs, vector<T>(g.cells(), g.nodata)); }
        same_header(c, *r, g, "the raster");
        same_cells(c, *r, g, "the raster");
        sane_positions(c, *r, "the raster");
        c.eq(r->GetCellNumber(), pos ? (int)valid.size() : g.cells(), "number of cells");
    }
}
void prop_reclassify(Ctx& c) { FOR_TYPES(reclassify, c) }

// ------------------------------------------------------------------------------------------------ R13
struct Stat { double num = 0, mean = 0, mx = 0, mn = 0, sd = 0; };
template <class T>
Stat stat_of(const vector<T>& v, T nodata) {
    Stat s;
    long double sum = 0, sq = 0;
    for (T x : v) {
        if (x == nodata) continue;
        if (s.num == 0) s.mx = s.mn = (double)x;
        s.mx = std::max(s.mx, (double)x);
        s.mn = std::min(s.mn, (double)x);
        s.num++;
        sum += x;
    }
    if (s.num == 0) return s;
    s.mean = (double)(sum / s.num);
    for (T x : v) if (x != nodata) sq += ((long double)x - sum / s.num) * ((long double)x - sum / s.num);
    s.sd = (double)std::sqrt(sq / s.num);
    return s;
}
template <class T>
void statistics(Ctx& c) {
    Grid<T> g;
    bool two_d, pos;
    auto generate = [&](int maxlyrs, int maxdim, bool files) {
        g = grid<T>(c, maxlyrs, maxdim);
        for (auto& l : g.v) {  // every layer has a valid value
            bool any = false;
            for (auto x : l) any |= x != g.nodata;
            if (!any) l[c.below(l.size())] = small_value(c, g.nodata);
        }
        pos = c.coin();
        if (pos || files) {  // valid in layer 1: at least where any layer is kept
            int k = (int)c.below(g.cells());
            for (auto& l : g.v) if (l[k] == g.nodata) l[k] = small_value(c, g.nodata);
        }
    };
    generate(4, 9, false);
    two_d = g.lyrs > 1 || c.chance(30);
    const bool reread = c.chance(4);  // files are read by the same object in between
    auto r = make_raster(g, two_d);
    if (pos) { r->SetCalcPositions(); drop_invalid(g); }
    c.note() << g.str() << (two_d ? " 2D" : " 1D") << (pos ? " with positions" : "") << ":";
    auto near = [&](double got, double want, const string& w) {
        c.check(std::fabs(got - want) <= 1e-9 * std::max(1., std::fabs(want)), w + format(": got %.17g, expected %.17g", got, want));
    };
    static const char* names[] = {"VALID_CELLNUMBER", "MEAN", "MAX", "MIN", "STD", "RANGE"};
    auto member = [&](const Stat& s, int which) { return which == 0 ? s.num : which == 1 ? s.mean : which == 2 ? s.mx : which == 3 ? s.mn : which == 4 ? s.sd : s.mx - s.mn; };
    vector<Stat> cur(g.lyrs);  // statistics as of the last computation
    bool computed = false;
    auto compute = [&]() { cur.resize(g.lyrs); for (int l = 0; l < g.lyrs; l++) cur[l] = stat_of(g.v[l], g.nodata); computed = true; };
    size_t n = c.len(1, 12);
    for (size_t k = 0; k < n; k++) {
        switch (c.weighted({5, 4, 2, 3, reread ? 4 : 0})) {
            case 0: {
                int l = 1 + (int)c.below(g.lyrs), which = (int)c.below(6);
                if (!computed) compute();
                string nm = names[which];
                if (c.coin()) for (auto& ch : nm) ch = (char)tolower(ch);
                double got;
                if (c.coin()) got = r->GetStatistics(nm, l);
                else got = which == 0 ? r->GetValidNumber(l) : which == 1 ? r->GetAverage(l) : which == 2 ? r->GetMaximum(l) : which == 3 ? r->GetMinimum(l) : which == 4 ? r->GetStd(l) : r->GetRange(l);
                near(got, member(cur[l - 1], which), format("%s of layer %d", names[which], l));
                c.eq(r->StatisticsCalculated(), true, "statistics calculated");
                if (g.cells() > 2) c.nontrivial();
                break;
            }
            case 1: {
                int which = (int)c.below(6), ln = -7;
                double* a = nullptr;
                double sentinel = 0;
                a = &sentinel;
                if (c.coin()) {
                    string nm = names[which];
                    if (c.coin()) for (auto& ch : nm) ch = (char)tolower(ch);
                    r->GetStatistics(nm, &ln, &a);
                } else switch (which) {
                    case 0: r->GetValidNumber(&ln, &a); break;
                    case 1: r->GetAverage(&ln, &a); break;
                    case 2: r->GetMaximum(&ln, &a); break;
                    case 3: r->GetMinimum(&ln, &a); break;
                    case 4: r->GetStd(&ln, &a); break;
                    default: r->GetRange(&ln, &a);
                }
                if (!two_d) { c.check(a == nullptr, "1D raster has statistics of several layers"); break; }
                if (!computed) compute();
                c.check(a != nullptr, format("no %s of all layers", names[which]));
                c.eq(ln, g.lyrs, "layers with statistics");
                for (int l = 0; l < g.lyrs; l++) near(a[l], member(cur[l], which), format("%s of layer %d of all", names[which], l + 1));
                c.label("all layers");
                break;
            }
            case 2:
                c.note() << " update";
                r->UpdateStatistics();
                compute();
                c.label("updated");
                break;
            case 4: {
                generate(3, 5, true);
                two_d = g.lyrs > 1;
                vector<string> f;
                for (int l = 0; l < g.lyrs; l++) f.push_back(write_layer(c, c.dir() + format("/stat%d", l), g, l));
                c.note() << " read " << g.str() << (pos ? " with positions" : "");
                c.check(two_d ? r->ReadFromFiles(f, pos) : r->ReadFromFile(f[0], pos), "reading files into a used raster");
                for (int l = 1; l < g.lyrs; l++)
                    for (int k = 0; k < g.cells(); k++) if (g.v[0][k] == g.nodata) g.v[l][k] = g.nodata;  // cells without first layer
                if (pos) drop_invalid(g);
                computed = false;
                c.label("files read in between");
                break;
            }
            default: {
                int i = (int)c.below(g.rows), j = (int)c.below(g.cols), l = (int)c.below(g.lyrs);
                if (pos && g.at(i, j, 0) == g.nodata) break;
                T v = small_value(c, g.nodata);
                c.note() << format(" set(%d,%d,%d)=", i, j, l + 1) << +v;
                r->SetValue(i, j, v, l + 1);
                g.at(i, j, l) = v;
            }
        }
    }
    c.check(r->GetStatistics("no such statistics") == r->GetDefaultValue(), "unknown statistics give the default value");
}
void prop_statistics(Ctx& c) { FOR_TYPES(statistics, c) }

PBT_STATIC([] {
    add("R01", 400000, 6000000, "a raster of up to 7x7 cells and 4 layers, of 8 cell types, and 1-30 accesses; non-trivial with more than one cell and three or more accesses", prop_access);
    add("R02", 400000, 6000000, "12 points around a raster, on borders or anywhere within cells; non-trivial with more than three cells", prop_coordinates);
    add("R03", 400000, 6000000, "a raster of up to 20x20 cells; non-trivial with both valid (two or more) and NoData cells", prop_positions);
    add("R12", 400000, 6000000, "a raster and 1-5 reclassifications and NoData replacements; non-trivial with a map of two or more classes", prop_reclassify);
    auto& st = add("R13", 400000, 6000000, "a raster and 1-12 statistics queries, updates, cell changes and readings of other files; non-trivial when statistics of three or more cells are read", prop_statistics);
    st.worker_init = gdal_init;
});
}  // namespace
