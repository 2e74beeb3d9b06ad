// Generators and reference models for raster properties.
#pragma once
#include "common.hpp"
#include "data_raster.hpp"
#include <fstream>
#include <iomanip>
#include <memory>
#include <sstream>
using namespace pbt;
using std::string;
using std::vector;
namespace dr = ccgl::data_raster;
using dr::clsRasterData;

typedef signed char i8;
typedef unsigned char u8;

template <class T> const char* tname();
template <> inline const char* tname<i8>() { return "int8"; }
template <> inline const char* tname<u8>() { return "uint8"; }
template <> inline const char* tname<int16_t>() { return "int16"; }
template <> inline const char* tname<uint16_t>() { return "uint16"; }
template <> inline const char* tname<int32_t>() { return "int32"; }
template <> inline const char* tname<uint32_t>() { return "uint32"; }
template <> inline const char* tname<int64_t>() { return "int64"; }
template <> inline const char* tname<uint64_t>() { return "uint64"; }
template <> inline const char* tname<float>() { return "float"; }
template <> inline const char* tname<double>() { return "double"; }

// ---- a raster as plain data ---------------------------------------------------------------------------
template <class T>
struct Grid {
    int rows = 0, cols = 0, lyrs = 1;
    double dx = 1, xll = 0, yll = 0;  // of the centre of the lower left cell
    T nodata = T();
    vector<vector<T> > v;             // [layer][row * cols + col]
    T& at(int r, int c, int l = 0) { return v[l][(size_t)r * cols + c]; }
    const T& at(int r, int c, int l = 0) const { return v[l][(size_t)r * cols + c]; }
    int cells() const { return rows * cols; }
    double x(int c) const { return xll + c * dx; }
    double y(int r) const { return yll + (rows - 1 - r) * dx; }
    // cell that contains the coordinate: cells are [west, east) x (south, north]
    bool locate(double px, double py, int& r, int& c) const {
        double west = xll - dx / 2, north = yll - dx / 2 + dx * rows;
        double fc = std::floor((px - west) / dx), fr = std::floor((north - py) / dx);
        if (fc < 0 || fc >= cols || fr < 0 || fr >= rows) return false;
        r = (int)fr;
        c = (int)fc;
        return true;
    }
    string str() const {
        std::ostringstream o;
        o.precision(12);
        o << rows << "x" << cols << "x" << lyrs << " " << tname<T>() << " ll(" << xll << "," << yll << ") dx " << dx << " nodata " << +nodata << " [";
        for (int l = 0; l < lyrs; l++) {
            if (l) o << " | ";
            for (int i = 0; i < cells() && i < 60; i++) {
                if (i) o << (i % cols ? " " : "; ");
                if (v[l][i] == nodata) o << "-"; else o << +v[l][i];
            }
        }
        o << "]";
        return o.str();
    }
};

// any value of the type (64-bit types: exact in double precision)
template <class T>
T any_value(Ctx& c, T nodata) {
    for (;;) {
        T r;
        if (std::is_floating_point<T>::value) {
            switch (c.below(5)) {
                case 0: r = (T)(c.integer(-400, 400) / 4.); break;
                case 1: r = (T)c.integer(-100000000, 100000000); break;
                case 2: r = (T)(c.integer(-999999999, 999999999) / 997.); break;
                case 3: r = (T)std::ldexp((c.coin() ? 1 : -1) * (0.5 + c.unit()), (int)c.range(-90, 90)); break;
                default: r = (T)((c.coin() ? 1 : -1) * std::pow(10., (double)c.range(-12, 30)) * (double)c.range(1, 99)); break;
            }
        } else {
            double lo = std::max((double)std::numeric_limits<T>::min(), -9007199254740992.), hi = std::min((double)std::numeric_limits<T>::max(), 9007199254740992.);
            r = (T)c.integer((int64_t)lo, (int64_t)hi);
        }
        if (r == nodata) r = (T)(r + 1);
        if (r != nodata) return r;
    }
}
// while on, values are not only small
inline bool& wide_values() { static bool on = false; return on; }
struct Wide {
    Wide(Ctx& c, int percent) { wide_values() = c.chance(percent); if (wide_values()) c.label("wide values"); }
    ~Wide() { wide_values() = false; }
};
// value that is neither very special nor nodata; few distinct ones, exactly representable everywhere
template <class T>
T small_value(Ctx& c, T nodata) {
    if (wide_values() && c.coin()) return any_value(c, nodata);
    for (;;) {
        T r;
        if (std::is_floating_point<T>::value) r = (T)(c.integer(-400, 400) / 4.);
        else if (std::numeric_limits<T>::is_signed) r = (T)c.range(-60, 60);
        else r = (T)c.range(0, 120);
        if (r == nodata) r = (T)(r + 1);
        if (r != nodata) return r;
    }
}
template <class T>
T pick_nodata(Ctx& c) {
    if (std::is_floating_point<T>::value) {
        switch (c.below(4)) {
            case 0: return (T)-9999;
            case 1: return (T)0;
            case 2: return (T)-1.5;
            default: return (T)-99999;
        }
    }
    if (!std::numeric_limits<T>::is_signed) return c.coin() ? std::numeric_limits<T>::max() > 1000000 ? (T)60000 : std::numeric_limits<T>::max() : (T)0;
    switch (c.below(3)) {
        case 0: return sizeof(T) == 1 ? (T)-128 : (T)-9999;
        case 1: return (T)0;
        default: return sizeof(T) == 1 ? (T)-1 : (T)-32768;
    }
}
// dyadic georeference so that all coordinate arithmetic is exact
template <class T>
void place(Ctx& c, Grid<T>& g) {
    g.dx = c.pick({1., 2., 0.5, 30., 0.25, 4.});
    g.xll = c.integer(-40, 40) * g.dx * c.pick({1., 0.5, 0.25});
    g.yll = c.integer(-40, 40) * g.dx * c.pick({1., 0.5, 0.25});
    if (c.chance(15)) { g.xll += 500000; g.yll += 4000000; }
}
template <class T>
void fill(Ctx& c, Grid<T>& g, int holes) {
    g.v.assign(g.lyrs, vector<T>(g.cells()));
    for (auto& l : g.v)
        for (auto& x : l) x = c.chance(holes) ? g.nodata : small_value(c, g.nodata);
}
inline int hole_rate(Ctx& c) { return (int)c.pick({0, 30, 30, 50, 80, 97, 100}); }

template <class T>
Grid<T> grid(Ctx& c, int maxlyrs, int maxdim = 7) {
    Grid<T> g;
    g.rows = (int)c.len(1, maxdim);
    g.cols = (int)c.len(1, maxdim);
    g.lyrs = (int)c.range(1, maxlyrs);
    place(c, g);
    g.nodata = pick_nodata<T>(c);
    fill(c, g, hole_rate(c));
    return g;
}

// a raster object over the grid's data
template <class T, class M = T>
std::unique_ptr<clsRasterData<T, M> > make_raster(const Grid<T>& g, bool two_d, const ccgl::STRING_MAP& opts = ccgl::STRING_MAP()) {
    typedef clsRasterData<T, M> R;
    if (two_d) {
        T** d = nullptr;
        ccgl::utils_array::Initialize2DArray(g.cells(), g.lyrs, d, g.nodata);
        for (int i = 0; i < g.cells(); i++)
            for (int l = 0; l < g.lyrs; l++) d[i][l] = g.v[l][i];
        return std::unique_ptr<R>(new R(d, g.cols, g.rows, g.lyrs, g.nodata, g.dx, g.xll, g.yll, opts));
    }
    T* d = new T[g.cells()];
    for (int i = 0; i < g.cells(); i++) d[i] = g.v[0][i];
    return std::unique_ptr<R>(new R(d, g.cols, g.rows, g.nodata, g.dx, g.xll, g.yll, opts));
}

// ---- what a raster object shows -----------------------------------------------------------------------
template <class T, class M>
void same_header(Ctx& c, clsRasterData<T, M>& r, const Grid<T>& g, const string& what) {
    c.eq(r.GetRows(), g.rows, "rows of " + what);
    c.eq(r.GetCols(), g.cols, "columns of " + what);
    c.eq(r.GetLayers(), g.lyrs, "layers of " + what);
    c.eq(r.GetCellWidth(), g.dx, "cell size of " + what);
    c.eq(r.GetXllCenter(), g.xll, "x of lower left centre of " + what);
    c.eq(r.GetYllCenter(), g.yll, "y of lower left centre of " + what);
    c.eq(+r.GetNoDataValue(), +g.nodata, "NoData of " + what);
    c.eq(r.GetRasterHeader().at(dr::HEADER_RS_NODATA), (double)g.nodata, "NoData in the header of " + what);
    c.eq(r.GetRasterHeader().at(dr::HEADER_RS_LAYERS), (double)g.lyrs, "layers in the header of " + what);
}
template <class T, class M>
void same_cells(Ctx& c, clsRasterData<T, M>& r, const Grid<T>& g, const string& what) {
    for (int l = 0; l < g.lyrs; l++)
        for (int i = 0; i < g.rows; i++)
            for (int j = 0; j < g.cols; j++) {
                T got = r.GetValue(i, j, l + 1);
                if (got != g.at(i, j, l))
                    c.fail(format("cell (%d, %d) of layer %d of %s: got %s, expected %s", i, j, l + 1, what.c_str(), Ctx::show(+got).c_str(), Ctx::show(+g.at(i, j, l)).c_str()));
            }
}
// positions of valid cells are consistent with each other and with the number of cells
template <class T, class M>
void sane_positions(Ctx& c, clsRasterData<T, M>& r, const string& what) {
    int** p = r.GetRasterPositionDataPointer();
    int* x = r.GetRasterPositionIndexPointer();
    c.check((p == nullptr) == (x == nullptr), "positions of " + what + " partly missing");
    if (!x) return;
    int n = r.GetCellNumber();
    for (int i = 0; i < n; i++) {
        c.check(p[i][0] >= 0 && p[i][0] < r.GetRows() && p[i][1] >= 0 && p[i][1] < r.GetCols(), "position outside of " + what);
        c.eq(x[i], p[i][0] * r.GetCols() + p[i][1], "position index of " + what);
        if (i) c.check(x[i] > x[i - 1], "positions of " + what + " are not in row-major order");
    }
}
template <class T>
vector<int> valid_cells(const Grid<T>& g) {
    vector<int> r;
    for (int i = 0; i < g.cells(); i++) if (g.v[0][i] != g.nodata) r.push_back(i);
    return r;
}
template <class T, class M>
vector<int> positions_of(clsRasterData<T, M>& r) {
    vector<int> v;
    int* x = r.GetRasterPositionIndexPointer();
    if (x) v.assign(x, x + std::max(0, r.GetCellNumber()));
    return v;
}
// after the positions are calculated, a cell without value in layer 1 reads NoData in every layer
template <class T>
void drop_invalid(Grid<T>& g) {
    for (int i = 0; i < g.cells(); i++)
        if (g.v[0][i] == g.nodata) for (auto& l : g.v) l[i] = g.nodata;
}

// ---- independent files --------------------------------------------------------------------------------
template <class T>
void write_asc(Ctx& c, const string& path, const Grid<T>& g, int lyr, bool fancy = false) {
    std::ofstream f(path);
    f << std::setprecision(17);
    bool corner = fancy && c.coin();
    vector<string> h(6);
    auto kw = [&](string k) {
        if (fancy && c.coin()) for (auto& ch : k) ch = (char)tolower(ch);
        return k + (fancy && c.coin() ? "      " : " ");
    };
    auto num = [&](double x) { std::ostringstream o; o << std::setprecision(17) << x; return o.str(); };
    string eol = fancy && c.chance(20) ? "\r\n" : "\n";
    h[0] = kw("NCOLS") + std::to_string(g.cols);
    h[1] = kw("NROWS") + std::to_string(g.rows);
    h[2] = kw(corner ? "XLLCORNER" : "XLLCENTER") + num(corner ? g.xll - g.dx / 2 : g.xll);
    h[3] = kw(corner ? "YLLCORNER" : "YLLCENTER") + num(corner ? g.yll - g.dx / 2 : g.yll);
    h[4] = kw("CELLSIZE") + num(g.dx);
    h[5] = kw("NODATA_VALUE") + num((double)g.nodata);
    for (auto& l : h) f << l << eol;
    for (int i = 0; i < g.rows; i++) {
        for (int j = 0; j < g.cols; j++) {
            if (j) f << (fancy && c.chance(10) ? "  " : " ");
            f << +g.at(i, j, lyr);
        }
        f << (fancy && c.coin() ? " " : "") << eol;
    }
}

#ifdef USE_GDAL
template <class T> struct GdalType;
template <> struct GdalType<u8> { static const GDALDataType v = GDT_Byte; };
template <> struct GdalType<i8> { static const GDALDataType v = GDT_Int8; };
template <> struct GdalType<uint16_t> { static const GDALDataType v = GDT_UInt16; };
template <> struct GdalType<int16_t> { static const GDALDataType v = GDT_Int16; };
template <> struct GdalType<uint32_t> { static const GDALDataType v = GDT_UInt32; };
template <> struct GdalType<int32_t> { static const GDALDataType v = GDT_Int32; };
template <> struct GdalType<uint64_t> { static const GDALDataType v = GDT_UInt64; };
template <> struct GdalType<int64_t> { static const GDALDataType v = GDT_Int64; };
template <> struct GdalType<float> { static const GDALDataType v = GDT_Float32; };
template <> struct GdalType<double> { static const GDALDataType v = GDT_Float64; };

inline void gdal_init() {
    GDALAllRegister();
    CPLSetErrorHandler(CPLQuietErrorHandler);
}
template <class T>
void write_tif(const string& path, const Grid<T>& g, int lyr, const char* wkt = "", bool set_nodata = true) {
    GDALDataset* ds = GetGDALDriverManager()->GetDriverByName("GTiff")->Create(path.c_str(), g.cols, g.rows, 1, GdalType<T>::v, nullptr);
    double t[6] = {g.xll - g.dx / 2, g.dx, 0, g.yll - g.dx / 2 + g.rows * g.dx, 0, -g.dx};
    ds->SetGeoTransform(t);
    if (*wkt) ds->SetProjection(wkt);
    if (set_nodata) {
        if (GdalType<T>::v == GDT_Int64) ds->GetRasterBand(1)->SetNoDataValueAsInt64((int64_t)g.nodata);
        else if (GdalType<T>::v == GDT_UInt64) ds->GetRasterBand(1)->SetNoDataValueAsUInt64((uint64_t)g.nodata);
        else ds->GetRasterBand(1)->SetNoDataValue((double)g.nodata);
    }
    vector<T> b = g.v[lyr];
    (void)ds->GetRasterBand(1)->RasterIO(GF_Write, 0, 0, g.cols, g.rows, b.data(), g.cols, g.rows, GdalType<T>::v, 0, 0);
    GDALClose(ds);
}
#else
inline void gdal_init() {}
#endif
// writes layer lyr in a random format; gives the name
template <class T>
string write_layer(Ctx& c, const string& stem, const Grid<T>& g, int lyr, int tif_percent = 25) {
#ifdef USE_GDAL
    if (c.chance(tif_percent) && sizeof(T) != 1) {
        write_tif(stem + ".tif", g, lyr);
        return stem + ".tif";
    }
#endif
    write_asc(c, stem + ".asc", g, lyr);
    return stem + ".asc";
}

#define FOR_TYPES(fn, c)                         \
    switch ((c).below(8)) {                      \
        case 0: fn<float>(c); break;             \
        case 1: fn<double>(c); break;            \
        case 2: fn<int32_t>(c); break;           \
        case 3: fn<int16_t>(c); break;           \
        case 4: fn<uint16_t>(c); break;          \
        case 5: fn<u8>(c); break;                \
        case 6: fn<i8>(c); break;                \
        default: fn<int64_t>(c); break;          \
    }
