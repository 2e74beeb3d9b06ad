// R17 requests that cannot be answered are refused and change nothing.
#include "snap.hpp"
#include "subs.hpp"
#include <climits>
#include <cmath>
#include <sys/stat.h>

namespace {
int outside(Ctx& c, int n) {  // not in [0, n)
    return (int)c.pick<int64_t>({-1, (int64_t)n, (int64_t)n + 1, -2, INT_MAX, INT_MIN, -(int64_t)n - 1, (int64_t)n + 1000});
}
template <class T>
struct Bad {
    typedef clsRasterData<T> R;
    Ctx& c;
    R& r;
    bool data;
    int rows, cols, lyrs, cells;
    T nodata;
    bool given = false;  // data were given to a subset
    Bad(Ctx& ctx, R& x) : c(ctx), r(x) {
        data = r.ValidateRasterData();
        rows = r.GetRows(); cols = r.GetCols(); lyrs = r.GetLayers(); cells = r.GetCellNumber();
        nodata = r.GetNoDataValue();
    }
    // a place of which at least one part is invalid
    void place(int& row, int& col, int& lyr, bool with_layer) {
        row = rows > 0 ? (int)c.below(rows) : 0;
        col = cols > 0 ? (int)c.below(cols) : 0;
        lyr = lyrs > 0 ? 1 + (int)c.below(lyrs) : 1;
        if (!data && c.coin()) return;  // no place is valid
        switch (c.below(with_layer ? 4 : 3)) {
            case 0: row = outside(c, std::max(rows, 0)); break;
            case 1: col = outside(c, std::max(cols, 0)); break;
            case 2: row = outside(c, std::max(rows, 0)); col = outside(c, std::max(cols, 0)); break;
            default: { int64_t l = 1 + (int64_t)outside(c, std::max(lyrs, 0)); lyr = l > INT_MAX ? INT_MAX : (int)l; }
        }
        c.note() << "(" << row << "," << col << "," << lyr << ")";
    }
    void same(T got, const string& what) { c.eq(+got, +nodata, what + " gives NoData"); }
    // one request; gives its name
    string request() {
        int row, col, lyr;
        string dir = c.dir();
        switch (c.below(data ? 17 : 28)) {
            case 0: c.note() << " GetValue"; place(row, col, lyr, true); same(r.GetValue(row, col, lyr), "value of a cell that does not exist"); c.check(r.IsNoData(row, col, lyr), "a cell that does not exist is not NoData"); break;
            case 1: {
                c.note() << " GetValue*";
                place(row, col, lyr, false);
                T* v = nullptr;
                if (c.coin()) v = new T[std::max(lyrs, 1)];
                r.GetValue(row, col, v);
                c.check(v == nullptr, "values of a cell that does not exist");
                break;
            }
            case 2: {
                int i = outside(c, std::max(cells, 0)), l = lyrs > 0 ? 1 + (int)c.below(lyrs) : 1;
                if (data && cells > 0 && c.coin()) { i = (int)c.below(cells); l = c.coin() ? lyrs + 1 : -(int)c.below(3); }
                c.note() << " GetValueByIndex(" << i << "," << l << ")";
                same(r.GetValueByIndex(i, l), "value of a cell index that does not exist");
                break;
            }
            case 3: {
                int i = outside(c, std::max(cells, 0));
                c.note() << " GetValueByIndex*(" << i << ")";
                T* v = nullptr;
                if (c.coin()) v = new T[std::max(lyrs, 1)];
                r.GetValueByIndex(i, v);
                c.check(v == nullptr, "values of a cell index that does not exist");
                break;
            }
            case 4: c.note() << " GetPosition"; place(row, col, lyr, false); c.eq(r.GetPosition(row, col), -2, "position of a cell that does not exist"); break;
            case 5: {
                double dx = rows > 0 ? r.GetCellWidth() : 1, x0 = rows > 0 ? r.GetXllCenter() : 0, y0 = rows > 0 ? r.GetYllCenter() : 0;
                double x = x0, y = y0, w = dx * std::max(cols, 1), h = dx * std::max(rows, 1);
                int how = (int)c.below(3);
                if (how != 1) x += c.coin() ? -dx * (double)c.range(1, 9) : w + dx * (double)c.range(0, 9);
                if (how != 0) y += c.coin() ? -dx * (double)c.range(1, 9) : h + dx * (double)c.range(0, 9);
                if (c.chance(20)) (c.coin() ? x : y) = c.pick<double>({NAN, INFINITY, -INFINITY, 1e308, -1e308, 3e15, -3e15});
                c.note() << " GetPosition(" << x << "," << y << ")";
                if (data) { dr::ROW_COL p = r.GetPositionByCoordinate(x, y); c.check(p.first == -1 && p.second == -1, "row and column of a place outside"); }
                c.eq(r.GetPosition(x, y), -2, "position of a place outside");
                break;
            }
            case 6: {
                c.note() << " SetValue";
                place(row, col, lyr, true);
                r.SetValue(row, col, (T)11, lyr);
                break;
            }
            case 7: {
                string name = c.pick({"", "no such", "MEANS", "MEAN ", "M"});
                c.note() << " statistics '" << name << "'";
                if (lyrs > 0) c.eq(r.GetStatistics(name, 1 + (int)c.below(lyrs)), r.GetDefaultValue(), "unknown statistics");
                int n = 0;
                double* v = (double*)1;
                r.GetStatistics(name, &n, &v);
                c.check(v == nullptr, "unknown statistics of all layers");
                break;
            }
            case 8: {
                int l = lyrs > 0 && c.coin() ? lyrs + (int)c.range(1, 3) : -(int)c.below(4);
                c.note() << " statistics of layer " << l;
                c.eq(r.GetAverage(l), r.GetDefaultValue(), "mean of a layer that does not exist");
                c.eq(r.GetMaximum(l), r.GetDefaultValue(), "maximum of a layer that does not exist");
                c.eq(r.GetMinimum(l), r.GetDefaultValue(), "minimum of a layer that does not exist");
                c.eq(r.GetStd(l), r.GetDefaultValue(), "standard deviation of a layer that does not exist");
                c.eq(r.GetRange(l), r.GetDefaultValue(), "range of a layer that does not exist");
                break;
            }
            case 9: c.note() << " GetOption"; c.eq(r.GetOption(c.pick({"", "no such option", "srs", "SRS "})), string(), "option that does not exist"); break;
            case 10: {  // files that do not exist
                string no = dir + c.pick({"/none.asc", "/none.tif", "/none", "/none/none.asc"});
                vector<string> f(1, no), f2 = {dir + "/is.asc", no}, f0;
                { std::ofstream o(dir + "/is.asc"); o << "NCOLS 1\nNROWS 1\nXLLCENTER 0\nYLLCENTER 0\nCELLSIZE 1\nNODATA_VALUE -9999\n5\n"; }
                c.note() << " read nothing";
                c.eq(r.ReadFromFile(no), false, "reading a file that does not exist");
                c.eq(r.ReadFromFiles(f), false, "reading files that do not exist");
                c.eq(r.ReadFromFiles(f2), false, "reading files one of which does not exist");
                c.eq(r.ReadFromFiles(f0), false, "reading no files");
                c.check(R::Init(no) == nullptr && R::Init(f) == nullptr && R::Init(f2) == nullptr && R::Init(f0) == nullptr, "a raster of files that do not exist");
                break;
            }
            case 11: {
                c.note() << " output to nowhere";
                string no = c.pick({string(""), string("name_without_directory"), string("n.asc")});
                if (data && !no.empty()) { no = ""; }
                c.eq(r.OutputToFile(no), false, "output to '" + no + "'");
                break;
            }
            case 12:
                if (!r.GetSubset().empty()) {
                    auto it = r.GetSubset().begin();
                    std::advance(it, c.below(r.GetSubset().size()));
                    c.note() << " data for subset " << it->first;
                    c.label("data of subsets");
                    if (c.coin()) {  // which has some
                        vector<vector<double> > v(it->second->n_cells, {5, 6, 7});
                        vector<double*> q;
                        for (auto& x : v) q.push_back(x.data());
                        c.eq(it->second->Set2DData(it->second->n_cells, (int)c.range(1, 3), q.data()), true, "data accepted");
                        given = true;
                    }
                    Snap<T> was(r);
                    Pieces<T, T>(c).refused_data(it->second, it->second->n_cells);
                    string d = was.diff(Snap<T>(r));
                    c.check(d.empty(), "changed by refused data: " + d);
                    break;
                }
                c.note() << " output of no subsets";
                c.eq(r.OutputSubsetToFile(c.coin(), c.coin(), dir + "/o.asc"), false, "output of no subsets");
                c.eq(r.OutputToFile(dir + "/o.asc", false), false, "output of the data of no subsets");
                c.check(!std::ifstream(dir + "/o.asc").good() && !std::ifstream(dir + "/0_o.asc").good(), "a file is written");
                break;
            case 13:
                if (data && r.PositionsCalculated() && r.GetRasterPositionIndexPointer()) { c.note() << " SetCalcPositions again"; c.eq(r.SetCalcPositions(), false, "calculating the positions again"); }
                break;
            case 14:
                if (r.GetMask() == nullptr || r.MaskExtented()) { c.note() << " SetUseMaskExt"; c.eq(r.SetUseMaskExt(), false, "using the extent of no mask or again"); }
                break;
            case 15: {
                c.note() << " the other dimension";
                int n = 5, l = 5;
                T* one = (T*)1;
                T** two = (T**)1;
                if (!data || r.Is2DRaster()) { c.eq(r.GetRasterData(&n, &one), false, "data of one layer"); c.check(n == -1 && one == nullptr, "data of one layer of others are given"); }
                n = l = 5;
                if (!data || !r.Is2DRaster()) {
                    c.eq(r.Get2DRasterData(&n, &l, &two), false, "data of several layers");
                    c.check(n == -1 && l == -1 && two == nullptr, "data of several layers of others are given");
                    double* v = (double*)1;
                    r.GetStatistics("MEAN", &n, &v);
                    c.check(v == nullptr, "statistics of several layers");
                }
                break;
            }
            case 16: {
                int l = lyrs > 0 && c.coin() ? lyrs + (int)c.range(1, 3) : -(int)c.below(3);
                c.note() << " validate";
                place(row, col, lyr, false);
                bool in = row >= 0 && row < rows && col >= 0 && col < cols;
                c.eq(r.ValidateRowCol(row, col), in, "validity of row and column");
                c.eq(r.ValidateLayer(l), false, "validity of a layer");
                c.eq(r.ValidateIndex(outside(c, std::max(cells, 0))), false, "validity of an index");
                if (data) {
                    c.check(r.ValidateRowCol(rows - 1, cols - 1) && r.ValidateRowCol(0, 0) && r.ValidateLayer(1) && r.ValidateLayer(lyrs) && (cells < 1 || (r.ValidateIndex(0) && r.ValidateIndex(cells - 1))), "validity of the last row, column, layer and index");
                }
                break;
            }
            // without data only
            case 17: c.note() << " calc positions"; c.eq(r.SetCalcPositions(), false, "calculating positions of nothing"); break;
            case 18: c.note() << " mask extent"; c.eq(r.SetUseMaskExt(), false, "using the extent of a mask for nothing"); break;
            case 19: c.note() << " subsets"; c.eq(r.BuildSubSet(), false, "subsets of nothing"); break;
            case 20: c.note() << " subsets"; c.eq(r.RebuildSubSet(), false, "subsets of nothing"); break;
            case 21: c.note() << " statistics"; r.CalculateStatistics(); c.check(!r.StatisticsCalculated(), "statistics of nothing are calculated"); break;
            case 22: c.note() << " statistics"; r.UpdateStatistics(); c.check(!r.StatisticsCalculated(), "statistics of nothing are calculated"); break;
            case 23: c.note() << " reclassify"; { std::map<int, T> m; m[1] = (T)2; r.Reclassify(m); } break;
            case 24: {
                string p = dir + c.pick({"/x.asc", "/x.tif", "/x"});
                c.note() << " output";
                c.eq(r.OutputToFile(p, c.coin()), false, "output of nothing");
                c.check(!std::ifstream(p).good() && !std::ifstream(dir + "/x.tif").good(), "a file is written");
                break;
            }
            case 25:
                c.note() << " ASC output";
                c.eq(r.OutputAscFile(dir + "/y.asc"), false, "ASC output of nothing");
                c.check(!std::ifstream(dir + "/y.asc").good(), "a file is written");
                break;
            case 26:
#ifdef USE_GDAL
                c.note() << " GeoTIFF output";
                c.eq(r.OutputFileByGdal(dir + "/z.tif"), false, "GeoTIFF output of nothing");
                c.check(!std::ifstream(dir + "/z.tif").good(), "a file is written");
#endif
                break;
            default: {
                c.note() << " positions";
                int n = 5, **p = (int**)1, *x = (int*)1;
                r.GetRasterPositionData(&n, &p);
                c.check(n == -1 && p == nullptr, "positions of nothing");
                n = 5;
                r.GetRasterPositionData(&n, &x);
                c.check(n == -1 && x == nullptr, "position indices of nothing");
            }
        }
        return "";
    }
};
template <class T>
void refuse(Ctx& c) {
    typedef clsRasterData<T> R;
    Grid<T> g = grid<T>(c, 3, 6);
    if (valid_cells(g).empty()) g.v[0][0] = small_value(c, g.nodata);
    std::unique_ptr<R> r, mask;
    string dir = c.dir();
    switch (c.weighted({6, 2, 1, 1, 1, 1})) {
        case 0: {
            bool two = g.lyrs > 1 || c.chance(30);
            c.note() << g.str() << (two ? " 2D" : " 1D");
            r = make_raster(g, two);
            if (c.coin()) { r->SetCalcPositions(); c.note() << " positions"; }
            if (c.chance(30)) r->CalculateStatistics();
            if (c.chance(30)) r->BuildSubSet();
            c.nontrivial();
            break;
        }
        case 1: {
            vector<string> names;
            for (int l = 0; l < g.lyrs; l++) names.push_back(write_layer(c, dir + format("/f_%d", l + 1), g, l));
            c.note() << "read " << g.str();
            if (c.coin()) mask = make_raster(g, false);
            r.reset(R::Init(names, c.coin(), mask.get(), c.coin()));
            c.check(r != nullptr, "cannot read the files");
            c.nontrivial();
            break;
        }
        case 2: r.reset(new R(c.coin())); c.note() << "never read"; break;
        case 3: {  // a file that is none
            string f = dir + "/bad.asc";
            { std::ofstream o(f); o << c.pick({"", "NCOLS 3\n", "hello\nworld\n"}); }
            r.reset(new R());
            c.eq(r->ReadFromFile(f), false, "reading a file that is no raster");
            c.note() << "not readable";
            break;
        }
        case 4: {  // nothing in common with the mask
            Grid<T> far = g;
            far.lyrs = 1;
            far.v.resize(1);
            far.xll += 1000 * g.dx;
            mask = make_raster(far, false);
            vector<string> names;
            for (int l = 0; l < g.lyrs; l++) names.push_back(write_layer(c, dir + format("/f_%d", l + 1), g, l));
            r.reset(new R());
            c.eq(r->ReadFromFiles(names, c.coin(), mask.get(), c.coin()), false, "reading files apart from the mask");
            c.note() << "apart from the mask";
            break;
        }
        default: {  // values for another number of cells
            Grid<T> m = g;
            m.lyrs = 1;
            m.v.resize(1);
            mask = make_raster(m, false);
            mask->SetCalcPositions();
            int n = mask->GetCellNumber() + (int)c.pick({-1, 1, 2});
            if (c.coin()) {
                vector<T> v(std::max(n, 1), (T)3);
                r.reset(new R(mask.get(), v.data(), n));
            } else {
                T** v = nullptr;
                ccgl::utils_array::Initialize2DArray(std::max(n, 1), 2, v, (T)3);
                r.reset(new R(mask.get(), v, n, 2));
                ccgl::utils_array::Release2DArray(v);
            }
            c.check(!r->Initialized(), "initialized with values for another number of cells");
            c.note() << "values for " << n << " cells of another number";
        }
    }
    c.note() << ":";
    bool had = r->ValidateRasterData();
    Snap<T> before(*r);
    for (size_t k = 1 + c.len(0, 7); k > 0; k--) {
        Bad<T> bad(c, *r);
        bad.request();
        if (bad.given) before = Snap<T>(*r);
        string d = before.diff(Snap<T>(*r));
        c.check(d.empty(), "changed: " + d);
    }
    c.label(had ? "with data" : "without data");
    if (!had) c.nontrivial();
    if (!had && c.chance(40)) {  // and it can be read into afterwards
        Grid<T> w = grid<T>(c, 1, 4);
        if (valid_cells(w).empty()) w.v[0][0] = small_value(c, w.nodata);
        for (auto& x : w.v[0]) if (std::is_floating_point<T>::value && x != w.nodata) x = (T)(int)x == w.nodata ? (T)77 : (T)(int)x;
        string f = write_layer(c, dir + "/later", w, 0);
        c.note() << " then read " << w.str();
        c.eq(r->ReadFromFile(f), true, "reading afterwards");
        same_header(c, *r, w, "the raster read afterwards");
        same_cells(c, *r, w, "the raster read afterwards");
        c.eq(r->GetPosition(w.rows - 1, w.cols - 1), w.cells() - 1, "position in the raster read afterwards");
    }
}
void prop_refuse(Ctx& c) {
    switch (c.below(4)) {
        case 0: refuse<float>(c); break;
        case 1: refuse<int32_t>(c); break;
        case 2: refuse<u8>(c); break;
        default: refuse<double>(c); break;
    }
}
PBT_STATIC([] {
    auto& a = add("R17", 60000, 900000, "a raster in memory, read from files, or without data for any of four reasons, and 1-8 requests for cells, layers, statistics, options, files and outputs that do not exist; every case with data or a request on none is non-trivial", prop_refuse);
    a.worker_init = gdal_init;
});
}  // namespace
