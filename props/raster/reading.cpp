// R04 masking, R05 several layers.
#include "ras.hpp"

namespace {
template <class T>
struct Expect {
    bool ok = true;
    Grid<T> g;             // what the raster shows
    bool pos = false;      // positions calculated
    vector<int> stored;    // then: the cells that are stored
};

template <class M>
Grid<M> mask_grid(Ctx& c, double dx, double xll, double yll, int rows, int cols) {
    Grid<M> m;
    m.rows = (int)c.range(1, 8);
    m.cols = (int)c.range(1, 8);
    m.nodata = pick_nodata<M>(c);
    switch (c.weighted({6, 2, 2})) {
        case 0: m.dx = dx; break;
        case 1: m.dx = dx / 2; break;
        default: m.dx = dx * 2;
    }
    // anywhere around the raster, aligned to half a cell
    m.xll = xll + dx * (double)c.range(-m.cols, cols) + (c.chance(30) ? dx / 4 : 0);
    m.yll = yll + dx * (double)c.range(-m.rows, rows) + (c.chance(30) ? dx / 4 : 0);
    if (c.chance(75)) {  // overlapping well: same or a part of the extent
        m.dx = dx;
        m.xll = xll;
        m.yll = yll;
        if (c.coin()) { m.rows = rows; m.cols = cols; }
        else if (c.coin()) { m.xll += dx * (double)c.range(-1, 1); m.yll += dx * (double)c.range(-1, 1); }
    }
    fill(c, m, (int)c.pick({0, 10, 20, 30, 40, 60, 97}));
    return m;
}

// the first layer read with a mask, and the other layers at its cells
template <class T, class M>
Expect<T> expected(const vector<Grid<T> >& files, const Grid<M>* mask, bool calc_pos, bool use_mask_ext, double def) {
    Expect<T> e;
    const Grid<T>& f = files[0];
    T nodata = f.nodata;
    bool has_def = !(def == (double)nodata) && !(def == -9999. && (double)nodata != -9999.);
    auto sample = [&](const Grid<T>& l, double x, double y, T& v) {  // false: outside
        int r, k;
        if (!l.locate(x, y, r, k)) { v = nodata; return false; }
        v = l.at(r, k) == l.nodata ? nodata : l.at(r, k);
        return true;
    };
    e.g.nodata = nodata;
    e.g.lyrs = (int)files.size();
    if (!mask) {
        e.g.rows = f.rows; e.g.cols = f.cols; e.g.dx = f.dx; e.g.xll = f.xll; e.g.yll = f.yll;
        e.g.v.assign(e.g.lyrs, vector<T>(f.cells(), nodata));
        e.g.v[0] = f.v[0];
        e.pos = calc_pos;
        if (e.pos) e.stored = valid_cells(e.g);
    } else {
        vector<int> mv = valid_cells(*mask);
        vector<T> v(mv.size());
        int in = 0, matched = 0, r0 = mask->rows, r1 = -1, c0 = mask->cols, c1 = -1;
        for (size_t k = 0; k < mv.size(); k++) {
            int i = mv[k] / mask->cols, j = mv[k] % mask->cols;
            if (!sample(f, mask->x(j), mask->y(i), v[k])) continue;
            in++;
            if (v[k] == nodata) { if (has_def) v[k] = (T)def; continue; }
            matched++;
            r0 = std::min(r0, i); r1 = std::max(r1, i); c0 = std::min(c0, j); c1 = std::max(c1, j);
        }
        e.ok = in > 0 && (matched > 0 || use_mask_ext);
        if (!e.ok) return e;
        if (use_mask_ext) { r0 = c0 = 0; r1 = mask->rows - 1; c1 = mask->cols - 1; }
        bool shrunk = r1 - r0 + 1 != mask->rows || c1 - c0 + 1 != mask->cols;
        e.g.rows = r1 - r0 + 1; e.g.cols = c1 - c0 + 1; e.g.dx = mask->dx;
        e.g.xll = mask->xll + c0 * mask->dx;
        e.g.yll = mask->yll + (mask->rows - 1 - r1) * mask->dx;
        e.g.v.assign(e.g.lyrs, vector<T>(e.g.cells(), nodata));
        bool all = matched == (int)mv.size();
        e.pos = calc_pos || !shrunk;
        for (size_t k = 0; k < mv.size(); k++) {
            int i = mv[k] / mask->cols - r0, j = mv[k] % mask->cols - c0;
            if (i < 0 || i >= e.g.rows || j < 0 || j >= e.g.cols) continue;
            e.g.at(i, j) = v[k];
            if (e.pos && (!calc_pos || all || v[k] != nodata)) e.stored.push_back(i * e.g.cols + j);
        }
    }
    for (int l = 1; l < e.g.lyrs; l++)
        for (int i = 0; i < e.g.rows; i++)
            for (int j = 0; j < e.g.cols; j++) {
                int k = i * e.g.cols + j;
                bool st = e.pos ? std::binary_search(e.stored.begin(), e.stored.end(), k) : e.g.v[0][k] != nodata;
                if (st) sample(files[l], e.g.x(j), e.g.y(i), e.g.v[l][k]);
            }
    return e;
}
template <class T, class M>
void shows(Ctx& c, clsRasterData<T, M>& r, const Expect<T>& e, const string& what) {
    same_header(c, r, e.g, what);
    same_cells(c, r, e.g, what);
    c.eq(r.PositionsCalculated(), e.pos, "positions calculated of " + what);
    sane_positions(c, r, what);
    c.eq(r.GetCellNumber(), e.pos ? (int)e.stored.size() : e.g.cells(), "number of cells of " + what);
    if (e.pos && !e.stored.empty()) c.eq(positions_of(r), e.stored, "valid positions of " + what);
    c.eq(r.Is2DRaster(), e.g.lyrs > 1, "dimension of " + what);
}

template <class T, class M>
void read(Ctx& c, int maxfiles, bool with_mask) {
    typedef clsRasterData<T, M> R;
    vector<Grid<T> > files;
    files.push_back(grid<T>(c, 1));
    if (c.chance(80)) {
        files[0].rows = (int)c.range(1, 8);
        files[0].cols = (int)c.range(2, 8);
        fill(c, files[0], (int)c.pick({0, 20, 20, 40, 60, 90}));
    }
    if (files[0].nodata == (T)0 && c.coin()) { files[0].nodata = pick_nodata<T>(c); fill(c, files[0], hole_rate(c)); }
    int n = (int)c.range(1, maxfiles);
    if (maxfiles > 1 && n == 1 && c.chance(70)) n = 2;
    for (int l = 1; l < n; l++) {
        Grid<T> g = files[0];
        if (c.chance(60)) {  // another extent, cell size or NoData
            g.rows = (int)c.len(1, 7);
            g.cols = (int)c.len(1, 7);
            g.dx *= c.pick({1., 1., 0.5, 2.});
            g.xll += files[0].dx * (double)c.range(-4, 4) * 0.5;
            g.yll += files[0].dx * (double)c.range(-4, 4) * 0.5;
            g.nodata = pick_nodata<T>(c);
        }
        fill(c, g, hole_rate(c));
        // a valid value of this layer must not be the NoData of the first
        for (auto& x : g.v[0]) if (x == files[0].nodata && x != g.nodata) x = (T)(x + 1) == g.nodata ? (T)(x + 2) : (T)(x + 1);
        files.push_back(g);
    }
    bool mask_on = with_mask || c.chance(40);
    std::unique_ptr<clsRasterData<M> > mask;
    Grid<M> m;
    bool calc = c.coin(), ext = c.chance(60), mask_pos = false;
    double def = -9999;
    if (c.chance(30)) def = c.pick({0., 7., 33., (double)files[0].nodata});
    if (mask_on) {
        m = mask_grid<M>(c, files[0].dx, files[0].xll, files[0].yll, files[0].rows, files[0].cols);
        mask = make_raster(m, c.chance(20));
        mask_pos = c.coin();
        if (mask_pos) mask->SetCalcPositions();
    }
    vector<string> names;
    for (int l = 0; l < n; l++) names.push_back(write_layer(c, c.dir() + format("/lyr_%d", l + 1), files[l], 0, maxfiles > 1 ? 15 : 20));
    for (int l = 0; l < n; l++) c.note() << "layer " << files[l].str() << (names[l].back() == 'f' ? " (tif) " : " ");
    if (mask_on) c.note() << "mask " << m.str() << (mask_pos ? " with positions" : "") << (ext ? " use_mask_ext" : "") << " default " << def;
    c.note() << (calc ? " calc_pos" : "");
    Expect<T> e = expected<T, M>(files, mask_on ? &m : nullptr, calc, ext, def);
    std::unique_ptr<R> r;
    int how = (int)c.below(5);
    clsRasterData<M>* mp = mask.get();
    bool ok = true;
    if (how == 4) {  // the constructors, which cannot refuse but leave no data
        if (n == 1 && c.coin()) r.reset(new R(names[0], calc, mp, ext, def));
        else r.reset(new R(names, calc, mp, ext, def));
        ok = r->ValidateRasterData();
        if (e.ok && e.pos && e.stored.empty()) ok = n == 1;  // neither has it without any valid cell
    } else if (n == 1 && how < 2) {
        if (how == 0) r.reset(R::Init(names[0], calc, mp, ext, def)), ok = r != nullptr;
        else { r.reset(new R()); ok = r->ReadFromFile(names[0], calc, mp, ext, def); }
    } else if (how % 2 == 0) {
        r.reset(R::Init(names, calc, mp, ext, def));
        ok = r != nullptr;
    } else {
        r.reset(new R());
        ok = r->ReadFromFiles(names, calc, mp, ext, def);
    }
    bool none = e.ok && e.pos && e.stored.empty();  // no valid cell at all
    if (none && n > 1) e.ok = false;
    c.eq(ok, e.ok, "reading succeeded");
    if (mask_on) {
        same_cells(c, *mask, m, "the mask");
        same_header(c, *mask, m, "the mask");
        sane_positions(c, *mask, "the mask");
    }
    if (!ok) { c.label(!mask_on ? "refused" : valid_cells(m).empty() ? "refused, empty mask" : ext ? "refused, outside" : "refused, nothing common"); return; }
    c.label(mask_on ? ext ? "mask, its extent" : "mask, common extent" : "no mask");
    if (e.pos) c.label("positions");
    if (none) { c.label("no valid cell"); same_cells(c, *r, e.g, "the raster"); return; }
    int differs = 0;
    for (auto& l : e.g.v) for (auto x : l) differs += x != e.g.nodata;
    if (differs > 1 && (!mask_on || differs < files[0].cells() * n)) c.nontrivial();
    shows(c, *r, e, "the raster");
    // requests after reading leave what the raster shows
    if (c.chance(40)) {
        bool had = e.pos;
        c.note() << " SetCalcPositions";
        if (!had) {
            c.eq(r->SetCalcPositions(), true, "calculating positions");
            e.pos = true;
            e.stored = valid_cells(e.g);
        } else c.eq(r->SetCalcPositions(), false, "calculating positions again");
        shows(c, *r, e, "the raster after calculating positions");
    }
    bool has_def = !(def == (double)files[0].nodata) && def != -9999.;
    if (mask_on && !(n > 1 && has_def) && c.chance(40)) {  // (the default value is then applied to all layers)
        c.note() << " SetUseMaskExt";
        bool kept = r->GetMask() != nullptr;
        bool did = r->SetUseMaskExt();
        if (ext || !kept) c.eq(did, false, "asking again for the extent of the mask");
        same_header(c, *r, e.g, "the raster after asking for the extent of the mask");
        // masking again may take cells without value in the first layer for not stored
        if (did) for (int k = 0; k < e.g.cells(); k++) {
            if (e.g.v[0][k] != e.g.nodata) continue;
            for (int l = 1; l < n; l++)
                if (r->GetValue(k / e.g.cols, k % e.g.cols, l + 1) == e.g.nodata) e.g.v[l][k] = e.g.nodata;
        }
        same_cells(c, *r, e.g, "the raster after asking for the extent of the mask");
        sane_positions(c, *r, "the raster after asking for the extent of the mask");
    }
    if (mask_on) { same_cells(c, *mask, m, "the mask"); sane_positions(c, *mask, "the mask"); }
}
void prop_mask(Ctx& c) {
    Wide wide(c, 25);
    switch (c.below(6)) {
        case 0: read<float, int32_t>(c, 1, true); break;
        case 1: read<int32_t, int32_t>(c, 1, true); break;
        case 2: read<double, float>(c, 1, true); break;
        case 3: read<int16_t, u8>(c, 1, true); break;
        case 4: read<u8, int32_t>(c, 1, true); break;
        default: read<double, double>(c, 1, true); break;
    }
}
void prop_layers(Ctx& c) {
    Wide wide(c, 25);
    switch (c.below(4)) {
        case 0: read<float, int32_t>(c, 4, false); break;
        case 1: read<int32_t, int32_t>(c, 4, false); break;
        case 2: read<int16_t, u8>(c, 4, false); break;
        default: read<double, float>(c, 4, false); break;
    }
}

PBT_STATIC([] {
    auto& a = add("R04", 60000, 900000, "a raster file (ASC or GeoTIFF) and a mask around, within or apart from it, of 6 type combinations, all flags and default values; non-trivial when two or more cells are read and the mask leaves some out", prop_mask);
    a.worker_init = gdal_init;
    auto& b = add("R05", 40000, 700000, "1-4 files of equal or different extent, cell size and NoData, half of them with a mask; non-trivial when two or more cells are read", prop_layers);
    b.worker_init = gdal_init;
});
}  // namespace
