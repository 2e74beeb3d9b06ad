// R06 ASC output, R08 GeoTIFF output and input, R09 conversion of the data type.
#include "ras.hpp"
#include <dirent.h>

namespace {
template <class T>
void fill_any(Ctx& c, Grid<T>& g, int holes) {
    for (auto& l : g.v)
        for (auto& x : l) x = c.chance(holes) ? g.nodata : any_value(c, g.nodata);
}
template <class T>
void georeference(Ctx& c, Grid<T>& g) {  // any, not only dyadic
    if (c.chance(40)) {
        g.dx = c.pick({0.1, 1 / 3., 28.51, 90.7, 1e-4, 1e5 / 7, 0.008333333333333333, 25.000000001});
        g.xll = c.integer(-100000000, 100000000) / 7.;
        g.yll = c.integer(-1000000000, 1000000000) / 3.;
    }
}
template <class T>
T asc_value(T x) {  // what six significant digits keep
    if (!std::is_floating_point<T>::value) return x;
    return (T)strtod(format("%.6g", (double)x).c_str(), nullptr);
}
vector<string> lines_of(const string& path) {
    std::ifstream f(path);
    vector<string> v;
    for (string l; std::getline(f, l);) v.push_back(l);
    return v;
}
bool exists(const string& p) { return std::ifstream(p).good(); }
int files_in(const string& d) {
    int n = 0;
    if (DIR* p = opendir(d.c_str())) {
        while (dirent* e = readdir(p)) n += e->d_name[0] != '.';
        closedir(p);
    }
    return n;
}

// ------------------------------------------------------------------------------------------------ R06
template <class T>
void check_asc(Ctx& c, const string& path, const Grid<T>& g, int lyr) {
    vector<string> l = lines_of(path);
    c.check((int)l.size() >= 6 + g.rows, format("%s has %d lines", path.c_str(), (int)l.size()));
    struct { const char* k; double v; } head[] = {{"NCOLS", (double)g.cols}, {"NROWS", (double)g.rows}, {"XLLCENTER", g.xll}, {"YLLCENTER", g.yll}, {"CELLSIZE", g.dx}, {"NODATA_VALUE", (double)g.nodata}};
    for (int i = 0; i < 6; i++) {
        char k[64], v[400];
        c.check(sscanf(l[i].c_str(), "%60s %390s", k, v) == 2 && k == string(head[i].k), "header line: " + l[i]);
        c.eq(strtod(v, nullptr), head[i].v, string(head[i].k) + " in the file");
    }
    for (int i = 0; i < g.rows; i++) {
        std::istringstream s(l[6 + i]);
        string w;
        for (int j = 0; j < g.cols; j++) {
            c.check((bool)(s >> w), format("row %d of the file is too short: %s", i, l[6 + i].c_str()));
            double want = g.at(i, j, lyr) == g.nodata ? (double)g.nodata : (double)asc_value(g.at(i, j, lyr));
            double got = strtod(w.c_str(), nullptr);
            if ((T)got != (T)want) c.fail(format("cell (%d, %d) of layer %d is written as %s, the value is %s", i, j, lyr + 1, w.c_str(), Ctx::show(+g.at(i, j, lyr)).c_str()));
        }
        c.check(!(s >> w), format("row %d of the file is too long", i));
    }
    for (size_t i = 6 + g.rows; i < l.size(); i++) c.check(l[i].empty(), "text after the last row: " + l[i]);
}
template <class T>
void asc(Ctx& c) {
    Grid<T> g = grid<T>(c, 3, 9);
    georeference(c, g);
    fill_any(c, g, hole_rate(c));
    // values which are taken for NoData after rounding are left out
    for (auto& l : g.v) for (auto& x : l) if (x != g.nodata && asc_value(x) == g.nodata) x = (T)(x / 2 + 7);
    bool two_d = g.lyrs > 1 || c.chance(20);
    auto r = make_raster(g, two_d);
    bool pos = c.coin();
    if (pos) { r->SetCalcPositions(); drop_invalid(g); }
    vector<int> valid = valid_cells(g);
    c.note() << g.str() << (two_d ? " 2D" : " 1D") << (pos ? " with positions" : "");
    if (pos && valid.empty()) { c.label("no valid cell"); c.discard(); }
    string d = c.dir() + (c.coin() ? "" : "/a.b");
    mkdir(d.c_str(), 0755);
    string core = c.pick({"out", "a.b", "x_1"}), ext = c.pick({"asc", "asc", "ASC"});
    string asked = d + "/" + core + "." + ext;
#ifndef USE_GDAL
    if (c.chance(60)) {  // other formats are not there
        asked = d + "/" + core + "." + c.pick({"tif", "TIF", "tiff", "img", "asc2", "dat"});
        ext = "asc";
    }
#endif
    string path = d + "/" + core + "." + ext;
    vector<string> paths;
    for (int l = 0; l < g.lyrs; l++) paths.push_back(two_d ? d + "/" + core + format("_%d.", l) + ext : path);
    bool before = c.chance(30);
    if (before) { std::ofstream f(paths[0]); for (int i = 0; i < 300; i++) f << "1 2 3 4 5 6 7\n"; }
    c.eq(r->OutputToFile(asked), true, "output succeeded");
    c.eq(files_in(d), g.lyrs, "number of files");
    for (int l = 0; l < g.lyrs; l++) check_asc(c, paths[l], g, l);
    same_header(c, *r, g, "the raster after output");
    same_cells(c, *r, g, "the raster after output");
    sane_positions(c, *r, "the raster after output");
    // and back
    Grid<T> w = g;
    for (auto& l : w.v) for (auto& x : l) if (x != w.nodata) x = asc_value(x);
    if (valid.size() > 1) c.nontrivial();
    std::unique_ptr<clsRasterData<T> > b;
    bool calc = c.coin();
    if (c.coin() && g.lyrs == 1) b.reset(clsRasterData<T>::Init(paths[0], calc));
    else b.reset(clsRasterData<T>::Init(paths, calc));
    if (valid.empty() && calc && g.lyrs > 1) { c.check(!b, "a raster of several layers without a valid cell is refused"); return; }
    c.check(b != nullptr, "cannot read the files written");
    if (g.lyrs > 1) drop_invalid(w);
    same_header(c, *b, w, "the raster read back");
    same_cells(c, *b, w, "the raster read back");
    sane_positions(c, *b, "the raster read back");
    // writing what was read gives the same file
    if (!(calc && valid.empty()) && c.coin()) {
        string again = c.dir() + "/again.asc";
        c.eq(b->OutputToFile(again), true, "output of the raster read back succeeded");
        for (int l = 0; l < g.lyrs; l++) check_asc(c, g.lyrs > 1 ? c.dir() + format("/again_%d.asc", l) : again, w, l);
        c.label("written again");
    }
}
void prop_asc(Ctx& c) { FOR_TYPES(asc, c) }

#ifdef USE_GDAL
// ------------------------------------------------------------------------------------------------ R08
const char* const WKT = "PROJCS[\"WGS 84 / UTM zone 50N\",GEOGCS[\"WGS 84\",DATUM[\"WGS_1984\",SPHEROID[\"WGS 84\",6378137,298.257223563]],PRIMEM[\"Greenwich\",0],UNIT[\"degree\",0.0174532925199433]],PROJECTION[\"Transverse_Mercator\"],PARAMETER[\"latitude_of_origin\",0],PARAMETER[\"central_meridian\",117],PARAMETER[\"scale_factor\",0.9996],PARAMETER[\"false_easting\",500000],PARAMETER[\"false_northing\",0],UNIT[\"metre\",1]]";
template <class T>
void near_header(Ctx& c, clsRasterData<T>& r, const Grid<T>& g, const string& what) {
    auto near = [&](double got, double want, const string& w) {
        c.check(std::fabs(got - want) <= 1e-9 * (std::fabs(want) + g.dx * g.rows), w + format(" of %s: got %.17g, expected %.17g", what.c_str(), got, want));
    };
    c.eq(r.GetRows(), g.rows, "rows of " + what);
    c.eq(r.GetCols(), g.cols, "columns of " + what);
    c.eq(r.GetLayers(), g.lyrs, "layers of " + what);
    near(r.GetCellWidth(), g.dx, "cell size");
    near(r.GetXllCenter(), g.xll, "x of lower left centre");
    near(r.GetYllCenter(), g.yll, "y of lower left centre");
    c.eq(+r.GetNoDataValue(), +g.nodata, "NoData of " + what);
}
template <class O, class T>
void check_tif(Ctx& c, const string& path, const Grid<T>& g, int lyr, bool srs) {
    GDALDataset* ds = (GDALDataset*)GDALOpen(path.c_str(), GA_ReadOnly);
    c.check(ds != nullptr, path + " cannot be opened");
    GDALRasterBand* b = ds->GetRasterBand(1);
    string bad;
    if (ds->GetRasterXSize() != g.cols || ds->GetRasterYSize() != g.rows || ds->GetRasterCount() != 1) bad = "the size of the file differs";
    else if (b->GetRasterDataType() != GdalType<O>::v) bad = string("the data type of the file is ") + GDALGetDataTypeName(b->GetRasterDataType());
    double t[6] = {0, 0, 0, 0, 0, 0};
    ds->GetGeoTransform(t);
    double e = 1e-9 * (std::fabs(g.xll) + std::fabs(g.yll) + g.dx * (g.rows + g.cols));
    if (std::fabs(t[0] - (g.xll - g.dx / 2)) > e || std::fabs(t[1] - g.dx) > e || t[2] != 0 || std::fabs(t[3] - (g.yll + (g.rows - 0.5) * g.dx)) > e || t[4] != 0 || std::fabs(t[5] + g.dx) > e)
        bad = format("the georeference of the file is %.17g %.17g %.17g %.17g %.17g %.17g", t[0], t[1], t[2], t[3], t[4], t[5]);
    if (bad.empty() && srs != (string(ds->GetProjectionRef()).find("UTM zone 50N") != string::npos)) bad = string("the spatial reference of the file is ") + ds->GetProjectionRef();
    int has = 0;
    if (bad.empty()) {
        if (GdalType<O>::v == GDT_Int64) { int64_t nd = b->GetNoDataValueAsInt64(&has); if (!has || (O)nd != (O)g.nodata) bad = "the NoData of the file differs"; }
        else if (GdalType<O>::v == GDT_UInt64) { uint64_t nd = b->GetNoDataValueAsUInt64(&has); if (!has || (O)nd != (O)g.nodata) bad = "the NoData of the file differs"; }
        else { double nd = b->GetNoDataValue(&has); if (!has || nd != (double)g.nodata) bad = format("the NoData of the file is %.17g (%d)", nd, has); }
    }
    if (bad.empty()) {
        vector<O> v(g.cells());
        (void)b->RasterIO(GF_Read, 0, 0, g.cols, g.rows, v.data(), g.cols, g.rows, GdalType<O>::v, 0, 0);
        for (int i = 0; i < g.cells() && bad.empty(); i++)
            if (v[i] != (O)g.v[lyr][i]) bad = format("cell (%d, %d) of layer %d in the file is %s, expected %s", i / g.cols, i % g.cols, lyr + 1, Ctx::show(+v[i]).c_str(), Ctx::show(+(O)g.v[lyr][i]).c_str());
    }
    GDALClose(ds);
    c.check(bad.empty(), bad);
}
template <class T>
void tif(Ctx& c) {
    Grid<T> g = grid<T>(c, 3, 9);
    georeference(c, g);
    fill_any(c, g, hole_rate(c));
    bool two_d = g.lyrs > 1 || c.chance(20);
    bool srs = c.chance(30);
    ccgl::STRING_MAP opts;
    if (srs) opts["SRS"] = WKT;
    auto r = make_raster(g, two_d, opts);
    bool pos = c.coin();
    if (pos) { r->SetCalcPositions(); drop_invalid(g); }
    vector<int> valid = valid_cells(g);
    c.note() << g.str() << (two_d ? " 2D" : " 1D") << (pos ? " with positions" : "");
    if (pos && valid.empty()) { c.label("no valid cell"); c.discard(); }
    string d = c.dir() + c.pick({"", "", "/a.b", "/new"});
    string core = c.pick({"out", "a.b", "x_1"}), ext = c.pick({"tif", "tif", "tif", "img", "TIF"});
    string path = d + "/" + core + "." + ext, e = ext == "img" ? "tif" : ext;
    vector<string> paths;
    for (int l = 0; l < g.lyrs; l++) paths.push_back(two_d ? d + "/" + core + format("_%d.", l + 1) + e : d + "/" + core + "." + e);
    if (c.chance(20)) { std::ofstream f(paths[0]); for (int i = 0; i < 300; i++) f << "1 2 3 4 5 6 7\n"; }
    c.eq(r->OutputToFile(path), true, "output succeeded");
    c.eq(files_in(d), g.lyrs, "number of files");
    for (int l = 0; l < g.lyrs; l++) check_tif<T>(c, paths[l], g, l, srs);
    same_header(c, *r, g, "the raster after output");
    same_cells(c, *r, g, "the raster after output");
    sane_positions(c, *r, "the raster after output");
    if (valid.size() > 1) c.nontrivial();
    // and back
    std::unique_ptr<clsRasterData<T> > b;
    bool calc = c.coin();
    if (c.coin() && g.lyrs == 1) b.reset(clsRasterData<T>::Init(paths[0], calc));
    else b.reset(clsRasterData<T>::Init(paths, calc));
    if (valid.empty() && calc && g.lyrs > 1) { c.check(!b, "a raster of several layers without a valid cell is refused"); return; }
    c.check(b != nullptr, "cannot read the files written");
    if (g.lyrs > 1) drop_invalid(g);
    near_header(c, *b, g, "the raster read back");
    if (!(calc && valid.empty())) same_cells(c, *b, g, "the raster read back");
    sane_positions(c, *b, "the raster read back");
    if (g.lyrs == 1) {
        c.eq(string(dr::RasterDataTypeToString(b->GetDataType())), string(dr::RasterDataTypeToString(dr::TypeToRasterDataType(typeid(T)))), "data type read");
        c.eq(srs, b->GetSrsString().find("UTM zone 50N") != string::npos, "spatial reference read");
    }
    c.label(tname<T>());
}
// reads a file of another program, of any type, into a raster of any type
template <class F, class T>
void foreign(Ctx& c) {
    Grid<F> f = grid<F>(c, 1, 9);
    bool has = c.chance(70);
    if (sizeof(F) == 1 && c.coin() && !std::numeric_limits<F>::is_signed)
        for (auto& x : f.v[0]) if (x != f.nodata && c.coin()) x = (F)(x + 128) == f.nodata ? x : (F)(x + 128);
    string path = c.dir() + "/f.tif";
    c.note() << "file " << f.str() << (has ? "" : " (NoData not defined)") << " read as " << tname<T>();
    write_tif(path, f, 0, c.chance(20) ? WKT : "", has);
    dr::RasterDataType ft = dr::TypeToRasterDataType(typeid(F));
    double nd = has ? (double)f.nodata : dr::DefaultNoDataByType(ft);
    bool signed8 = false;
    if (sizeof(F) == 1 && !std::numeric_limits<F>::is_signed && !has) {  // 8-bit without NoData: signed if no value is above 127
        F mx = 0;
        for (auto x : f.v[0]) mx = std::max(mx, x);
        signed8 = (double)mx <= 127;
        if (signed8) nd = dr::DefaultNoDataByType(dr::RDT_Int8);
    }
    if (!has) {  // must be different from the default NoData
        for (auto x : f.v[0]) if ((double)x == nd) { c.label("default NoData among the values"); c.discard(); }
    }
    if (nd < (double)std::numeric_limits<T>::lowest() || nd > (double)std::numeric_limits<T>::max()) { c.label("NoData beyond the type"); c.discard(); }
    Grid<T> w;
    w.rows = f.rows; w.cols = f.cols; w.dx = f.dx; w.xll = f.xll; w.yll = f.yll; w.nodata = (T)nd;
    w.v.assign(1, vector<T>(f.cells()));
    for (int i = 0; i < f.cells(); i++) {
        double x = (double)f.v[0][i];
        if (x != nd && (x < (double)std::numeric_limits<T>::lowest() || x > (double)std::numeric_limits<T>::max() || (T)x == w.nodata)) { c.label("value beyond the type"); c.discard(); }
        w.v[0][i] = (T)x;
    }
    bool calc = c.coin();
    std::unique_ptr<clsRasterData<T> > r(clsRasterData<T>::Init(path, calc));
    c.check(r != nullptr, "cannot read the file");
    near_header(c, *r, w, "the raster");
    if (!(calc && valid_cells(w).empty())) same_cells(c, *r, w, "the raster");
    c.eq(string(dr::RasterDataTypeToString(r->GetDataType())), string(dr::RasterDataTypeToString(signed8 ? dr::RDT_Int8 : ft)), "data type read");
    if (w.cells() > 1) c.nontrivial();
    c.label(has ? "foreign file" : "foreign file without NoData");
}
template <class F>
void foreign_into(Ctx& c) {
    switch (c.below(6)) {
        case 0: foreign<F, float>(c); break;
        case 1: foreign<F, double>(c); break;
        case 2: foreign<F, int32_t>(c); break;
        case 3: foreign<F, int16_t>(c); break;
        case 4: foreign<F, u8>(c); break;
        default: foreign<F, int64_t>(c);
    }
}
void prop_tif(Ctx& c) {
    if (c.chance(60)) {
        switch (c.below(10)) {
            case 0: tif<float>(c); break;
            case 1: tif<double>(c); break;
            case 2: tif<int32_t>(c); break;
            case 3: tif<int16_t>(c); break;
            case 4: tif<uint16_t>(c); break;
            case 5: tif<u8>(c); break;
            case 6: tif<i8>(c); break;
            case 7: tif<int64_t>(c); break;
            case 8: tif<uint32_t>(c); break;
            default: tif<uint64_t>(c); break;
        }
    } else {
        switch (c.below(10)) {
            case 0: foreign_into<float>(c); break;
            case 1: foreign_into<double>(c); break;
            case 2: foreign_into<int32_t>(c); break;
            case 3: foreign_into<int16_t>(c); break;
            case 4: foreign_into<uint16_t>(c); break;
            case 5: foreign_into<u8>(c); break;
            case 6: foreign_into<i8>(c); break;
            case 7: foreign_into<int64_t>(c); break;
            case 8: foreign_into<uint32_t>(c); break;
            default: foreign_into<uint64_t>(c); break;
        }
    }
}

// ------------------------------------------------------------------------------------------------ R09
template <class T, class O>
void convert(Ctx& c) {
    Grid<T> g = grid<T>(c, 2, 7);
    const bool of = std::is_floating_point<O>::value;
    const double lo = of ? 0 : (double)std::numeric_limits<O>::lowest(), hi = of ? 0 : (double)std::numeric_limits<O>::max();
    if (std::is_floating_point<T>::value && c.chance(15)) g.nodata = c.pick({(T)-1.5, (T)-std::numeric_limits<float>::max(), (T)0.1, (T)1e20});
    // substitute for a NoData which the type cannot hold
    bool fits = of || ((double)g.nodata >= lo && (double)g.nodata <= hi && (double)g.nodata == std::floor((double)g.nodata));
    O nd = of ? (O)g.nodata : fits ? (O)g.nodata : std::numeric_limits<O>::is_signed ? std::numeric_limits<O>::min() : std::numeric_limits<O>::max();
    bool beyond = false;
    int outside = c.chance(30) ? 15 : 0;
    int holes = hole_rate(c);
    for (auto& l : g.v)
        for (auto& x : l) {
            if (c.chance(holes)) { x = g.nodata; continue; }
            x = small_value(c, g.nodata);
            if (!of) {
                double d = (double)x;
                if (c.chance(10)) d = c.pick({lo, hi, lo + 1, hi - 1});
                if (d < 0 && lo == 0 && !c.chance(outside)) d = -d;
                if (c.chance(outside)) {  // often just beyond
                    double by = c.pick({1., 0.5, 1., 2., (double)c.below(1000) + 1});
                    d = c.coin() ? hi + by : lo - by;
                }
                if (d > -9e15 && d < 9e15 && d >= (double)std::numeric_limits<T>::lowest() && d <= (double)std::numeric_limits<T>::max()) x = (T)d;
            }
            // a value taken for NoData in the output is left out
            if (x == g.nodata) continue;
            if (!of && (double)x >= lo && (double)x <= hi && (O)x == nd) x = (T)7;
            if (x == g.nodata || (O)x == nd) { x = g.nodata; continue; }
            if (!of && ((double)x < lo || (double)x > hi)) beyond = true;
        }
    bool two_d = g.lyrs > 1 || c.chance(20);
    ccgl::STRING_MAP opts;
    string out = dr::RasterDataTypeToString(dr::TypeToRasterDataType(typeid(O)));
    int how = (int)c.below(3);
    string spelled = out;
    if (c.coin()) for (auto& ch : spelled) ch = (char)tolower(ch);
    if (how == 0) opts["DATATYPE_OUT"] = spelled;
    auto r = make_raster(g, two_d, opts);
    if (how == 1) r->SetOutDataType(spelled);
    if (how == 2) r->SetOutDataType(dr::TypeToRasterDataType(typeid(O)));
    bool pos = c.chance(40);
    if (pos) {
        r->SetCalcPositions();
        drop_invalid(g);
        beyond = false;
        for (auto& l : g.v) for (auto x : l) if (x != g.nodata && !of && ((double)x < lo || (double)x > hi)) beyond = true;
    }
    c.note() << g.str() << (pos ? " with positions" : "") << " as " << spelled;
    if (pos && valid_cells(g).empty()) c.discard();
    c.eq(string(dr::RasterDataTypeToString(r->GetOutDataType())), out, "output data type");
    string path = c.dir() + "/o.tif";
    bool ok = r->OutputToFile(path);
    c.eq(ok, !beyond, "output succeeded");
    same_cells(c, *r, g, "the raster after output");
    if (beyond) {
        if (!two_d) c.check(!exists(path), "a file is written although values do not fit");
        c.label("refused");
        c.nontrivial();
        return;
    }
    Grid<O> w;
    w.rows = g.rows; w.cols = g.cols; w.lyrs = g.lyrs; w.dx = g.dx; w.xll = g.xll; w.yll = g.yll; w.nodata = nd;
    w.v.assign(g.lyrs, vector<O>(g.cells()));
    int n = 0;
    for (int l = 0; l < g.lyrs; l++)
        for (int i = 0; i < g.cells(); i++) { w.v[l][i] = g.v[l][i] == g.nodata ? nd : (O)g.v[l][i]; n += g.v[l][i] != g.nodata; }
    for (int l = 0; l < g.lyrs; l++) check_tif<O>(c, two_d ? c.dir() + format("/o_%d.tif", l + 1) : path, w, l, false);
    if (n > 1) c.nontrivial();
    if (!fits) c.label("NoData substituted");
    c.label(string(tname<T>()) + " to " + tname<O>());
}
template <class T>
void convert_to(Ctx& c) {
    switch (c.below(10)) {
        case 0: convert<T, float>(c); break;
        case 1: convert<T, double>(c); break;
        case 2: convert<T, int32_t>(c); break;
        case 3: convert<T, int16_t>(c); break;
        case 4: convert<T, uint16_t>(c); break;
        case 5: convert<T, u8>(c); break;
        case 6: convert<T, i8>(c); break;
        case 7: convert<T, int64_t>(c); break;
        case 8: convert<T, uint32_t>(c); break;
        default: convert<T, uint64_t>(c); break;
    }
}
void prop_convert(Ctx& c) {
    switch (c.below(10)) {
        case 0: convert_to<float>(c); break;
        case 1: convert_to<double>(c); break;
        case 2: convert_to<int32_t>(c); break;
        case 3: convert_to<int16_t>(c); break;
        case 4: convert_to<uint16_t>(c); break;
        case 5: convert_to<u8>(c); break;
        case 6: convert_to<i8>(c); break;
        case 7: convert_to<int64_t>(c); break;
        case 8: convert_to<uint32_t>(c); break;
        default: convert_to<uint64_t>(c); break;
    }
}
#endif  // USE_GDAL

PBT_STATIC([] {
    auto& a = add("R06", 60000, 900000, "a raster of any of 8 types, 1-3 layers and any georeference, with or without positions, written as ASC, and read back; non-trivial with two or more valid cells", prop_asc);
    a.worker_init = gdal_init;
#ifdef USE_GDAL
    auto& b = add("R08", 20000, 400000, "a raster of any of 10 types and 1-3 layers written as GeoTIFF and read back, or a GeoTIFF of another program read into a raster of any type; non-trivial with two or more cells", prop_tif);
    b.worker_init = gdal_init;
    auto& d = add("R09", 50000, 400000, "a raster of any of 10 types written as a GeoTIFF of any of 10 types; non-trivial with two or more valid cells or a refused conversion", prop_convert);
    d.worker_init = gdal_init;
#endif
});
}  // namespace
