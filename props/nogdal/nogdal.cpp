// N01 built without GDAL: ASC rasters as ever, no other format.
#include "../raster/ras.hpp"
#include <dirent.h>
#include <sys/stat.h>
#ifdef USE_GDAL
#error "this group is built without GDAL"
#endif

namespace {
int entries(const string& d) {
    int n = 0;
    if (DIR* p = opendir(d.c_str())) {
        while (dirent* e = readdir(p)) n += e->d_name[0] != '.';
        closedir(p);
    }
    return n;
}
string text_of(const string& p) {
    std::ifstream f(p, std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}
// files of other formats are refused, whatever is in them, and functions that write single files write ASC
template <class T>
void formats(Ctx& c) {
    Grid<T> g = grid<T>(c, 1, 6);
    typedef clsRasterData<T> R;
    string d = c.dir(), suffix = c.pick({"tif", "TIF", "img", "txt", "asc.bak", "asc2"});
    write_asc(c, d + "/in.asc", g, 0);
    string foreign = d + "/foreign." + suffix;
    if (c.coin()) write_asc(c, foreign, g, 0);
    else if (c.coin()) { std::ofstream f(foreign); f << "II*" << string(200, '\0'); }
    c.note() << g.str() << " " << suffix;
    bool calc = c.coin();
    int files = entries(d);
    {
        std::unique_ptr<R> r(R::Init(foreign, calc));
        c.check(!r, "a file of another format became a raster");
        vector<string> names{d + "/in.asc", foreign};
        if (c.coin()) std::swap(names[0], names[1]);
        r.reset(R::Init(names, calc));
        c.check(!r, "files of which one has another format became a raster");
        R fresh;
        c.eq(fresh.ReadFromFile(foreign, calc), false, "reading a file of another format");
        c.eq(fresh.ReadFromFiles(names, calc), false, "reading files of which one has another format");
        // the object serves for a readable file afterwards
        c.eq(fresh.ReadFromFile(d + "/in.asc", calc), true, "reading an ASC file");
        same_header(c, fresh, g, "the raster read");
        same_cells(c, fresh, g, "the raster read");
        sane_positions(c, fresh, "the raster read");
    }
    c.eq(entries(d), files, "files after reading");
    // one layer of values into a file
    ccgl::STRDBL_MAP h = dr::InitialHeader();
    dr::UpdateHeader(h, dr::HEADER_RS_NROWS, g.rows);
    dr::UpdateHeader(h, dr::HEADER_RS_NCOLS, g.cols);
    dr::UpdateHeader(h, dr::HEADER_RS_CELLSIZE, g.dx);
    dr::UpdateHeader(h, dr::HEADER_RS_XLL, g.xll);
    dr::UpdateHeader(h, dr::HEADER_RS_YLL, g.yll);
    dr::UpdateHeader(h, dr::HEADER_RS_NODATA, g.nodata);
    dr::UpdateHeader(h, dr::HEADER_RS_LAYERS, 1);
    dr::UpdateHeader(h, dr::HEADER_RS_CELLSNUM, g.cells());
    mkdir((d + "/o").c_str(), 0755);
    string core = c.pick({"x", "a.b", "x_1"}), ext = c.pick({"asc", "ASC", "tif", "img", "dat"});
    ccgl::STRING_MAP opts;
    vector<T> v = g.v[0];
    c.eq(dr::WriteRasterToFile(d + "/o/" + core + "." + ext, h, opts, v.data()), true, "writing a raster file");
    string out = d + "/o/" + core + "." + (ext == "ASC" ? "ASC" : "asc");
    c.eq(entries(d + "/o"), 1, "files written");
    c.check(!text_of(out).empty(), out + " is not written");
    std::unique_ptr<R> b(R::Init(out, false));
    c.check(b != nullptr, "the file written is not read");
    same_header(c, *b, g, "the raster written and read");
    same_cells(c, *b, g, "the raster written and read");
    c.label("formats");
    if (g.cells() > 1) c.nontrivial();
}
void prop_nogdal(Ctx& c) {
    if (c.chance(15)) { FOR_TYPES(formats, c) return; }
    // the properties of rasters hold as with GDAL
    const Property* p = find_property(c.pick({"R01", "R02", "R03", "R04", "R05", "R06", "R07", "R10", "R11", "R12", "R13", "R14", "R15", "R16", "R17"}));
    c.label(p->id);
    Ctx in(c.source());
    in.size_ = c.size_;
    struct Wipe { Ctx& i; ~Wipe() { wipe_dir(i.dir_); } } w{in};
    try { p->run(in); }
    catch (...) { c.note() << p->id << ": " << in.notes.str(); throw; }
    c.note() << p->id << ": " << in.notes.str();
    if (in.nontrivial_) c.nontrivial();
}
PBT_STATIC([] {
    add("N01", 40000, 1200000, "a build without GDAL: a case of another property of rasters (non-trivial as that case), or files of other formats to read and write (several cells)", prop_nogdal);
});
}  // namespace
