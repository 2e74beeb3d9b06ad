// R16 names, spatial reference, types and options of rasters read from files.
#include "snap.hpp"
#include "subs.hpp"
#include <sys/stat.h>

namespace {
typedef ccgl::STRING_MAP Opts;
const char* const UTM = "PROJCS[\"WGS 84 / UTM zone 50N\",GEOGCS[\"WGS 84\",DATUM[\"WGS_1984\",SPHEROID[\"WGS 84\",6378137,298.257223563]],PRIMEM[\"Greenwich\",0],UNIT[\"degree\",0.0174532925199433]],PROJECTION[\"Transverse_Mercator\"],PARAMETER[\"latitude_of_origin\",0],PARAMETER[\"central_meridian\",117],PARAMETER[\"scale_factor\",0.9996],PARAMETER[\"false_easting\",500000],PARAMETER[\"false_northing\",0],UNIT[\"metre\",1]]";
const char* const WGS = "GEOGCS[\"WGS 84\",DATUM[\"WGS_1984\",SPHEROID[\"WGS 84\",6378137,298.257223563]],PRIMEM[\"Greenwich\",0],UNIT[\"degree\",0.0174532925199433]]";

string name_part(Ctx& c) {
    static const char* const k[] = {"dem", "a", "1", "2", "_", "_", ".", "-", " ", "layer", "0", "é", "_1", "_2", "X"};
    string s = c.pick({"dem", "a", "slope", "r1"});
    for (size_t i = c.len(0, 4); i > 0; i--) s += k[c.below(sizeof k / sizeof *k)];
    return s;
}
string any_case(Ctx& c, string s) {
    int how = (int)c.below(3);
    for (auto& ch : s) ch = how == 0 ? (char)toupper(ch) : how == 1 ? (char)tolower(ch) : c.coin() ? (char)toupper(ch) : (char)tolower(ch);
    return s;
}
struct TypeName { const char* name; int type; };
const TypeName TYPES[] = {
    {"UCHAR", dr::RDT_UInt8}, {"UINT8", dr::RDT_UInt8}, {"GDT_Byte", dr::RDT_UInt8}, {"CHAR", dr::RDT_Int8}, {"INT8", dr::RDT_Int8}, {"GDT_Int8", dr::RDT_Int8},
    {"UINT16", dr::RDT_UInt16}, {"GDT_UInt16", dr::RDT_UInt16}, {"INT16", dr::RDT_Int16}, {"GDT_Int16", dr::RDT_Int16}, {"UINT32", dr::RDT_UInt32}, {"GDT_UInt32", dr::RDT_UInt32},
    {"INT32", dr::RDT_Int32}, {"GDT_Int32", dr::RDT_Int32}, {"UINT64", dr::RDT_UInt64}, {"GDT_UInt64", dr::RDT_UInt64}, {"INT64", dr::RDT_Int64}, {"GDT_Int64", dr::RDT_Int64},
    {"FLOAT", dr::RDT_Float}, {"GDT_Float32", dr::RDT_Float}, {"DOUBLE", dr::RDT_Double}, {"GDT_Float64", dr::RDT_Double},
    {"", dr::RDT_Unknown}, {"Unknown", dr::RDT_Unknown}, {"FLOAT128", dr::RDT_Unknown}, {"UINT", dr::RDT_Unknown}, {"INT 8", dr::RDT_Unknown}, {"GDT_", dr::RDT_Unknown}};
// the canonical name of a type
string canon(int t) {
    static const char* const k[] = {"Unknown", "UINT8", "INT8", "UINT16", "INT16", "UINT32", "INT32", "UINT64", "INT64", "FLOAT", "DOUBLE"};
    return k[t];
}
string slurp(const string& p) {
    std::ifstream f(p, std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}
struct Files {
    vector<string> paths;   // as given
    string real_dir, stem, suffix, srs;
    int type = dr::RDT_Unknown;
};
template <class T>
Files make_files(Ctx& c, const Grid<T>& base, int n, int serial) {
    Files f;
    string d = c.dir() + c.pick({"/in", "/in.put", "/in_put", "/in put"});
    mkdir(d.c_str(), 0755);
    mkdir((d + "/sub").c_str(), 0755);
    f.real_dir = d + "/";
    string given = d + c.pick({"/", "/", "//", "/./", "/sub/../"});
    string core = name_part(c);
    int style = (int)c.below(3);
    bool tif = false;
#ifdef USE_GDAL
    tif = c.coin() && sizeof(T) != 1;
    const char* wkt = c.pick({"", UTM, WGS});
#endif
    for (int l = 0; l < n; l++) {
        Grid<T> g = base;
        if (l) fill(c, g, 20);
        if (valid_cells(g).empty()) g.v[0][0] = small_value(c, g.nodata);
        string stem = core + (style == 0 ? format("_%d", l + 1) : style == 1 && l == 0 ? "" : style == 1 ? format("_%d", l + 1) : format("%d-%d", serial, l));
        string suffix = tif ? c.pick({"tif", "tif", "TIF"}) : c.pick({"asc", "asc", "ASC", "Asc"});
        string real = f.real_dir + stem + "." + suffix;
        if (tif) {
#ifdef USE_GDAL
            write_tif(real, g, 0, l == 0 ? wkt : "");
#endif
        } else write_asc(c, real, g, 0);
        f.paths.push_back(given + stem + "." + suffix);
        if (l == 0) { f.stem = stem; f.suffix = suffix; }
    }
#ifdef USE_GDAL
    if (tif) {
        f.type = dr::TypeToRasterDataType(typeid(T));
        GDALDataset* ds = (GDALDataset*)GDALOpen(f.paths[0].c_str(), GA_ReadOnly);
        c.check(ds != nullptr, "GDAL cannot open the file generated");
        f.srs = ds->GetProjectionRef();
        GDALClose(ds);
    }
#endif
    return f;
}
template <class T>
void origin(Ctx& c) {
    typedef clsRasterData<T> R;
    Grid<T> g = grid<T>(c, 1, 5);
    fill(c, g, (int)c.pick({0, 30, 60}));
    if (valid_cells(g).empty()) g.v[0][0] = small_value(c, g.nodata);
    for (auto& x : g.v[0]) if (x != g.nodata && std::is_floating_point<T>::value) x = (T)(int)x == g.nodata ? (T)77 : (T)(int)x;
    std::unique_ptr<R> r, mask;
    bool mask_on = c.chance(30);
    string mask_srs = c.pick({"", WGS, "LOCAL_CS[\"mask\"]"});
    if (mask_on) {
        mask = make_raster(g, false, {{"SRS", mask_srs}}); if (c.coin()) mask->SetCalcPositions();
        c.note() << "mask" << (mask_srs.empty() ? "; " : " with spatial reference; ");
    }
    bool calc = c.coin(), ext = c.coin();
    double def = c.chance(30) ? c.pick({0., 3., (double)g.nodata}) : -9999.;
    Files f;
    Opts user, kept;
    int reads = c.chance(25) ? 2 : 1, n = 1, out = 0;
    for (int k = 0; k < reads; k++) {
        n = (int)c.pick({1, 1, 2, 3});
        f = make_files(c, g, n, k);
        user.clear();
        out = f.type;
        if (c.chance(60)) {
            const TypeName& t = TYPES[c.below(sizeof TYPES / sizeof *TYPES)];
            user["DATATYPE_OUT"] = any_case(c, t.name);
            if (t.type) out = t.type;
        }
        if (c.coin()) user["UNIT"] = c.pick({"m", "", "kg ha-1"});
        if (c.coin()) user["unit"] = "lower";
        if (c.chance(20)) user["MASK_NAME"] = "m";
        for (auto& o : user) kept[o.first] = o.second;
        c.note() << n << " x " << f.paths[0] << " with {";
        for (auto& o : user) c.note() << o.first << "=" << o.second << " ";
        c.note() << "}; ";
        int how = k ? 1 : (int)c.below(3);
        R* m = mask.get();
        bool ok = true;
        bool plain = n == 1 && c.coin();
        if (how == 0) {
            r.reset(plain ? R::Init(f.paths[0], calc, m, ext, def, user) : R::Init(f.paths, calc, m, ext, def, user));
            ok = r != nullptr;
        } else if (how == 1) {
            if (!r) r.reset(new R());
            ok = plain ? r->ReadFromFile(f.paths[0], calc, m, ext, def, user) : r->ReadFromFiles(f.paths, calc, m, ext, def, user);
        } else {
            r.reset(plain ? new R(f.paths[0], calc, m, ext, def, user) : new R(f.paths, calc, m, ext, def, user));
            ok = r->ValidateRasterData();
        }
        c.check(ok, "cannot read the files");
    }
    // names
    string core = f.stem, path = f.paths[0];
    if (n > 1) {
        core = core.substr(0, core.rfind('_'));
        path = f.real_dir + core + "_%d." + f.suffix;
    }
    c.eq(r->GetCoreName(), core, "core name");
    c.eq(r->GetFilePath(), path, "path");
    c.eq(r->GetFullFileName(), path, "full file name");
    // spatial reference: that of the mask with the rest of the georeference
    if (mask_on) f.srs = mask_srs;
    c.eq(r->GetSrsString(), f.srs, "spatial reference");
    c.eq(string(r->GetSrs()), f.srs, "spatial reference as const char*");
    c.eq(r->GetOption("SRS"), f.srs, "spatial reference among the options");
    // types
    c.eq(canon(r->GetDataType()), canon(f.type), "data type");
    c.eq(canon(r->GetOutDataType()), canon(out), "output data type");
    if (!user.count("DATATYPE_OUT")) kept["DATATYPE_OUT"] = canon(out);
    c.eq(canon(dr::StringToRasterDataType(r->GetOption("DATATYPE_OUT"))), canon(out), "output data type among the options");
    // options
    for (auto& o : kept) if (o.first != "DATATYPE_OUT") c.eq(r->GetOption(o.first.c_str()), o.second, "option " + o.first);
    c.eq(r->GetOption("Unit"), string(), "option never given");
    for (auto& o : r->GetOptions())
        if (!kept.count(o.first) && o.first != "SRS" && o.first != "DATATYPE_OUT") c.check(o.second.empty(), "option " + o.first + " appeared: " + o.second);
    // flags
    c.eq(r->MaskExtented(), mask_on && ext, "extent of the mask");
    c.eq(r->GetDefaultValue(), def == -9999. ? (double)g.nodata : def, "default value");
    c.eq(r->GetLayers(), n, "layers");
    c.eq(r->GetDataLength(), r->GetCellNumber() * n, "data length");
    c.check(r->Initialized(), "not initialized after reading");
    if (f.paths.size() > 1 || !f.srs.empty() || !user.empty()) c.nontrivial();
    c.label(n > 1 ? "several files" : "one file");
    if (reads > 1) c.label("read again");
    if (!f.srs.empty()) c.label("spatial reference");
    // requests that change one thing only
    for (size_t k = c.len(0, 4); k > 0; k--) {
        Snap<T> before(*r);
        std::set<string> but;
        string what;
        switch (c.below(5)) {
            case 0: core = name_part(c); r->SetCoreName(core); but = {"core"}; what = "a new core name"; c.eq(r->GetCoreName(), core, "core name set"); break;
            case 1: {
                const TypeName& t = TYPES[c.below(sizeof TYPES / sizeof *TYPES)];
                if (c.coin()) r->SetDataType(any_case(c, t.name)); else r->SetDataType((dr::RasterDataType)t.type);
                c.eq(canon(r->GetDataType()), canon(t.type), "data type set");
                but = {"type"}; what = "a new data type";
                break;
            }
            case 2: {
                const TypeName& t = TYPES[c.below(sizeof TYPES / sizeof *TYPES)];
                if (c.coin()) r->SetOutDataType(any_case(c, t.name)); else r->SetOutDataType((dr::RasterDataType)t.type);
                out = t.type;
                c.eq(canon(r->GetOutDataType()), canon(out), "output data type set");
                c.eq(r->GetOption("DATATYPE_OUT"), canon(out), "output data type set, among the options");
                but = {"output type", "option DATATYPE_OUT"}; what = "a new output data type";
                break;
            }
            case 3: r->SetDefaultValue(5.25); c.eq(r->GetDefaultValue(), 5.25, "default value set"); but = {"default"}; what = "a new default value"; break;
            default: { ccgl::STRDBL_MAP h = r->GetRasterHeader(); r->SetHeader(h); what = "its own header"; }
        }
        string d = before.diff(Snap<T>(*r), but);
        c.check(d.empty(), "also changed by " + what + ": " + d);
    }
    // names used for output without one
    if (c.chance(40)) {
        vector<int> valid = positions_of(*r);
        if (!r->BuildSubSet()) return;
        vector<string> olds;
        for (auto& p : f.paths) olds.push_back(slurp(p));
        std::set<string> before = names_in(f.real_dir), want = before;
        bool comb = c.coin();
        c.note() << "output of subsets " << (comb ? "combined" : "one by one") << " without a name";
        if (out && out != dr::TypeToRasterDataType(typeid(T)) && f.type) return;  // may be refused
        vector<string> prefixes;
        if (comb) prefixes.push_back("0");
        else for (auto& s : r->GetSubset()) prefixes.push_back(std::to_string(s.first));
        for (auto& p : prefixes)
            for (int l = 1; l <= n; l++) want.insert(p + "_" + core + (n > 1 ? format("_%d", l) : "") + "." + f.suffix);
        c.eq(r->OutputSubsetToFile(true, comb), true, "output succeeded");
        std::ostringstream a, b;
        for (auto& s : names_in(f.real_dir)) a << s << "|";
        for (auto& s : want) b << s << "|";
        string got = a.str(), exp = b.str();
        if (f.type) {  // the suffix of GeoTIFF files may be spelled otherwise
            for (auto& ch : got) ch = (char)tolower(ch);
            for (auto& ch : exp) ch = (char)tolower(ch);
        }
        c.eq(got, exp, "files in the directory of the source");
        for (size_t k = 0; k < olds.size(); k++) c.check(slurp(f.paths[k]) == olds[k], "a source file is overwritten");
        c.label("default output name");
    }
}
void prop_origin(Ctx& c) {
    switch (c.below(4)) {
        case 0: origin<float>(c); break;
        case 1: origin<int32_t>(c); break;
        case 2: origin<int16_t>(c); break;
        default: origin<double>(c); break;
    }
}
PBT_STATIC([] {
    auto& a = add("R16", 30000, 500000, "1-3 ASC or GeoTIFF files under generated directory, core and suffix names, with or without spatial reference, read by any constructor or function with any options, twice in a quarter of the cases; non-trivial with several files, a spatial reference or options", prop_origin);
    a.worker_init = gdal_init;
});
}  // namespace
