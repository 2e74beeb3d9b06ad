// G01 rasters in GridFS.
#include "store.hpp"

namespace {
// a raster object and what it shows
template <class T, class M>
struct Obj {
    std::unique_ptr<clsRasterData<T, M> > r;
    Grid<T> g;
    bool pos = false;
    vector<int> stored;
    int cells() const { return pos ? (int)stored.size() : g.cells(); }
    int cell(int i) const { return pos ? stored[i] : i; }
};
template <class M>
struct Mask {
    std::unique_ptr<clsRasterData<M> > r;
    Grid<M> g;
};
template <class T, class M>
struct World : Store {
    typedef clsRasterData<T, M> R;
    vector<std::unique_ptr<Mask<M> > > masks;   // they outlive the rasters
    vector<std::unique_ptr<Obj<T, M> > > objs;
    int reads = 0, writes = 0;
    World(Ctx& ctx) : Store(ctx) {}

    void verify(Obj<T, M>& o, const string& what) {
        same_header(c, *o.r, o.g, what);
        same_cells(c, *o.r, o.g, what);
        c.eq(o.r->PositionsCalculated(), o.pos, "positions calculated of " + what);
        sane_positions(c, *o.r, what);
        c.eq(o.r->GetCellNumber(), o.cells(), "number of cells of " + what);
        if (o.pos) c.eq(positions_of(*o.r), o.stored, "valid positions of " + what);
        c.eq((double)o.r->GetRasterHeader().at("CELLSNUM"), (double)o.cells(), "number of cells in the header of " + what);
    }
    void verify_all() {
        for (size_t i = 0; i < objs.size(); i++) verify(*objs[i], format("raster %d", (int)i));
        for (size_t i = 0; i < masks.size(); i++) {
            same_cells(c, *masks[i]->r, masks[i]->g, "a mask");
            same_header(c, *masks[i]->r, masks[i]->g, "a mask");
            sane_positions(c, *masks[i]->r, "a mask");
        }
        verify_store();
    }

    void create() {
        std::unique_ptr<Obj<T, M> > o(new Obj<T, M>());
        o->g = grid<T>(c, 3);
        if (c.chance(60)) { o->g.rows = (int)c.range(1, 6); o->g.cols = (int)c.range(2, 6); fill(c, o->g, (int)c.pick({0, 20, 50})); }
        bool two_d = o->g.lyrs > 1 || c.chance(15);
        STRING_MAP op;
        if (c.coin()) op["SRS"] = "+proj=utm +zone=50";
        o->r = make_raster<T, M>(o->g, two_d, op);
        if (c.chance(40) && !valid_cells(o->g).empty()) {
            o->r->SetCalcPositions();
            drop_invalid(o->g);
            o->pos = true;
            o->stored = valid_cells(o->g);
        }
        c.note() << "raster " << objs.size() << " = " << o->g.str() << (two_d ? " 2D" : " 1D") << (o->pos ? " positions; " : "; ");
        objs.push_back(std::move(o));
    }
    void write() {
        size_t oi = c.below(objs.size());
        Obj<T, M>& o = *objs[oi];
        string name = c.pick({string("dem"), string("slope"), string("dem_2")});
        bool inc = c.coin();
        STRING_MAP opts;
        if (c.chance(30)) opts["YEAR"] = c.pick({string("1999"), string("2000"), string("wet")});
        if (c.chance(40)) {
            const DType& t = dtypes[c.below(10)];
            bool ok = t.integral ? (double)o.g.nodata == std::trunc((double)o.g.nodata) && holds(t, (double)o.g.nodata) : true;
            for (auto& l : o.g.v) for (auto x : l) ok = ok && holds(t, (double)x);
            if (ok) { opts["DATATYPE_OUT"] = t.name; if (c.chance(20)) for (auto& x : opts["DATATYPE_OUT"]) x = (char)tolower(x); }
        }
        bool empty_name = c.chance(10);
        if (empty_name) o.r->SetCoreName(name);
        STRING_MAP want = o.r->GetOptions();
        for (auto& x : opts) want[x.first] = x.second;
        const DType* had = by_name(want["DATATYPE_OUT"]);
        if (had) {  // chosen before, for other values
            bool ok = !had->integral || ((double)o.g.nodata == std::trunc((double)o.g.nodata) && holds(*had, (double)o.g.nodata));
            for (auto& l : o.g.v) for (auto x : l) ok = ok && holds(*had, (double)x);
            if (!ok) { want["DATATYPE_OUT"] = opts["DATATYPE_OUT"] = own<T>().name; }
        } else want["DATATYPE_OUT"] = own<T>().name;
        want["INCLUDE_NODATA"] = inc ? "TRUE" : "FALSE";
        int fault = c.chance(15) ? (int)c.range(1, 4) : 0;
        c.note() << "write " << oi << " as " << name << (inc ? "" : " valid only") << " " << options_text(opts) << (fault ? format("fault %d", fault) : "") << "; ";
        bool none = !inc && !o.pos && valid_cells(o.g).empty();
        if (!inc && !o.pos && !none) {
            drop_invalid(o.g);
            o.pos = true;
            o.stored = valid_cells(o.g);
        }
        Doc d;
        d.name = name;
        for (auto& x : want) d.meta[x.first] = value_of(x.second);
        const Grid<T>& g = o.g;
        d.meta["NROWS"] = number(g.rows); d.meta["NCOLS"] = number(g.cols); d.meta["LAYERS"] = number(g.lyrs);
        d.meta["CELLSNUM"] = number(inc ? g.cells() : o.cells());
        d.meta["XLLCENTER"] = number(g.xll); d.meta["YLLCENTER"] = number(g.yll); d.meta["CELLSIZE"] = number(g.dx);
        d.meta["NODATA_VALUE"] = number((double)g.nodata);
        const DType& t = *by_name(want["DATATYPE_OUT"]);
        int n = inc ? g.cells() : o.cells();
        for (int i = 0; i < n; i++) for (int l = 0; l < g.lyrs; l++) {
            double x = (double)g.v[l][inc ? i : o.cell(i)];
            d.bytes += t.bytes(t.integral ? std::trunc(x) : x);
        }
        // former files of this name and these options
        vector<Doc> rest;
        size_t gone = replace(name, want, rest);
        bool ok = !none, cleared = !none;
        if (fault == 1) fake::server.fail_write = (int)c.range(1, 3);              // overcome
        if (fault == 2) fake::server.fail_save = (int)c.range(1, 3);
        if (fault == 3) fake::server.fail_write = 100, ok = false;
        if (fault == 4) { if (gone) fake::server.fail_remove = 100, ok = cleared = false; else fake::server.fail_find = 1, ok = cleared = false; }
        bool got = o.r->OutputToMongoDB(gfs.get(), empty_name ? "" : name, opts, inc);
        fake::server.fail_write = fake::server.fail_save = fake::server.fail_remove = fake::server.fail_find = 0;
        c.eq(got, ok, "result of writing");
        if (cleared) docs = rest;
        if (ok) { docs.push_back(d); writes++; }
        if (!none) {
            c.check(o.r->GetOptions() == want, "options after writing: " + options_text(o.r->GetOptions()) + "expected " + options_text(want));
        } else objs.erase(objs.begin() + (long)oi);  // positions of no cell
        c.label(none ? "nothing to write" : fault ? "write, fault" : gone ? "replace" : string(t.name) == own<T>().name ? "write" : "write converted");
    }
    // a file of another program
    void foreign() {
        Doc d;
        d.name = c.pick({string("dem"), string("other"), string("other")});
        Grid<T> g = grid<T>(c, 3);
        bool inc = c.chance(70);
        const DType* t = &dtypes[c.below(10)];
        for (auto& l : g.v) for (auto& x : l) if (!holds(*t, (double)x)) x = (T)1 == g.nodata ? (T)2 : (T)1;
        if (!holds(*t, (double)g.nodata) || (double)g.nodata != std::trunc((double)g.nodata)) t = &own<T>();
        vector<int> cells;
        for (int i = 0; i < g.cells(); i++) if (inc || g.v[0][i] != g.nodata) cells.push_back(i);
        for (int i : cells) for (int l = 0; l < g.lyrs; l++) d.bytes += t->bytes((double)g.v[l][i]);
        double h[] = {(double)g.rows, (double)g.cols, (double)g.lyrs, (double)cells.size(), g.xll, g.yll, g.dx, (double)g.nodata};
        std::map<string, string> txt;
        txt["DATATYPE_OUT"] = t->name;
        txt["INCLUDE_NODATA"] = inc ? "TRUE" : "FALSE";
        if (c.coin()) txt["YEAR"] = c.pick({string("1999"), string("wet")});
        string bad;
        if (c.chance(45)) switch (c.below(9)) {
            case 0: if (!d.bytes.empty()) d.bytes.resize(c.below(d.bytes.size())); bad = "cut off"; break;
            case 1: d.bytes += string(c.range(1, 9), 'x'); bad = "too long"; break;
            case 2: h[3] += (double)c.range(-2, 2); bad = "other cell count"; break;
            case 3: txt["DATATYPE_OUT"] = c.pick({string("Unknown"), string(""), string("INT128"), string("INT16"), string("DOUBLE")}); bad = "other type"; break;
            case 4: txt.erase("DATATYPE_OUT"); bad = "no type"; break;
            case 5: h[c.below(4)] = (double)c.pick({0, -1, -9999}); bad = "bad dimension"; break;
            case 6: h[2] = (double)c.range(1, 4); bad = "other layers"; break;
            case 7: std::swap(h[0], h[3]); bad = "swapped"; break;
            default: d.has_meta = false; bad = "no metadata"; break;
        }
        int drop = c.chance(10) ? (int)c.below(4) : -1;
        d.meta.clear();
        bson_t* m = bson_new();
        bool wide = c.coin();
        for (int k = 0; k < 8; k++) {
            if (k == drop) { bad = "missing dimension"; continue; }
            d.meta[header_keys[k]] = number(h[k]);
            if (h[k] != std::trunc(h[k]) || wide) BSON_APPEND_DOUBLE(m, header_keys[k], h[k]);
            else if (c.coin()) BSON_APPEND_INT32(m, header_keys[k], (int)h[k]);
            else BSON_APPEND_INT64(m, header_keys[k], (int64_t)h[k]);
        }
        for (auto& x : txt) {
            Val v = value_of(x.second);
            d.meta[x.first] = v;
            if (v.number) BSON_APPEND_INT32(m, x.first.c_str(), (int)v.x);
            else BSON_APPEND_UTF8(m, x.first.c_str(), x.second.c_str());
        }
        fake::File* f = new fake::File;
        bson_oid_init(&f->id, nullptr);
        f->name = d.name;
        f->data = d.bytes;
        f->has_meta = d.has_meta;
        if (d.has_meta) bson_copy_to(m, &f->meta); else d.meta.clear();
        bson_destroy(m);
        fake::server.files("model", "SPATIAL").push_back(f);
        docs.push_back(d);
        c.note() << "foreign " << d.name << " " << t->name << (inc ? " " : " valid only ") << g.str() << " " << bad << "; ";
        c.label(bad.empty() ? "foreign" : "foreign, " + bad);
    }
    // the cells of a file; false if it is not a raster
    bool decode(const Doc& d, Grid<T>& g, bool& inc, vector<vector<T> >& v) {
        g.rows = (int)d.num("NROWS"); g.cols = (int)d.num("NCOLS"); g.lyrs = (int)d.num("LAYERS");
        int n = (int)d.num("CELLSNUM");
        const DType* t = by_name(d.text("DATATYPE_OUT"));
        if (g.rows <= 0 || g.cols <= 0 || g.lyrs <= 0 || n <= 0 || !t) return false;
        if (d.bytes.size() != (size_t)n * g.lyrs * t->size) return false;
        inc = upper(d.text("INCLUDE_NODATA")) != "FALSE";
        if (inc && n != g.cells()) return false;
        g.xll = d.num("XLLCENTER"); g.yll = d.num("YLLCENTER"); g.dx = d.num("CELLSIZE");
        g.nodata = (T)d.num("NODATA_VALUE");
        v.assign(g.lyrs, vector<T>(n));
        for (int i = 0; i < n; i++) for (int l = 0; l < g.lyrs; l++) {
            double x = t->number(&d.bytes[((size_t)i * g.lyrs + l) * t->size]);
            const DType& me = own<T>();
            v[l][i] = (me.integral && !(x >= me.lo && x <= me.hi)) || x != x ? (unjudged = true, (T)0) : (T)x;  // no values of T, e.g., NaN of reinterpreted bytes
        }
        if (inc) g.v = v;
        return true;
    }
    bool unjudged = false;

    // all layers of one file, read with a mask
    bool masked(const Grid<T>& f, const Grid<M>& m, bool calc, bool ext, double def, Obj<T, M>& e) {
        T nodata = f.nodata;
        bool has_def = !(def == (double)nodata) && !(def == -9999. && (double)nodata != -9999.);
        vector<int> mv = valid_cells(m);
        vector<vector<T> > v(f.lyrs, vector<T>(mv.size(), nodata));
        int in = 0, matched = 0, r0 = m.rows, r1 = -1, c0 = m.cols, c1 = -1;
        for (size_t k = 0; k < mv.size(); k++) {
            int i = mv[k] / m.cols, j = mv[k] % m.cols, fi, fj;
            if (!f.locate(m.x(j), m.y(i), fi, fj)) continue;
            in++;
            for (int l = 0; l < f.lyrs; l++) {
                v[l][k] = f.at(fi, fj, l);
                if (v[l][k] == nodata && has_def) v[l][k] = (T)def;
            }
            if (f.at(fi, fj) == nodata) continue;
            matched++;
            r0 = std::min(r0, i); r1 = std::max(r1, i); c0 = std::min(c0, j); c1 = std::max(c1, j);
        }
        if (!in || (!matched && !ext)) return false;
        if (ext) { r0 = c0 = 0; r1 = m.rows - 1; c1 = m.cols - 1; }
        bool shrunk = r1 - r0 + 1 != m.rows || c1 - c0 + 1 != m.cols;
        Grid<T>& g = e.g;
        g.nodata = nodata; g.lyrs = f.lyrs;
        g.rows = r1 - r0 + 1; g.cols = c1 - c0 + 1; g.dx = m.dx;
        g.xll = m.xll + c0 * m.dx;
        g.yll = m.yll + (m.rows - 1 - r1) * m.dx;
        g.v.assign(g.lyrs, vector<T>(g.cells(), nodata));
        bool all = matched == (int)mv.size();
        e.pos = calc || !shrunk;
        e.stored.clear();
        for (size_t k = 0; k < mv.size(); k++) {
            int i = mv[k] / m.cols - r0, j = mv[k] % m.cols - c0;
            if (i < 0 || i >= g.rows || j < 0 || j >= g.cols) continue;
            bool st = !calc || all || v[0][k] != nodata;
            if (st) for (int l = 0; l < g.lyrs; l++) g.at(i, j, l) = v[l][k];
            if (e.pos && st) e.stored.push_back(i * g.cols + j);
        }
        return true;
    }
    void read() {
        string name = c.pick({string("dem"), string("slope"), string("dem_2"), string("other")});
        STRING_MAP opts;
        if (!docs.empty() && c.chance(85)) {
            const Doc& d = docs[c.below(docs.size())];
            name = d.name;
            for (auto& x : d.meta) if (!is_header(x.first) && c.chance(x.first == "INCLUDE_NODATA" ? 80 : 25)) {
                opts[x.first] = x.second.number ? format("%.0f", x.second.x) : x.second.s;
            }
        } else if (c.coin()) opts["INCLUDE_NODATA"] = c.coin() ? "FALSE" : "TRUE";
        STRING_MAP filter = opts;
        if (!filter.count("INCLUDE_NODATA")) filter["INCLUDE_NODATA"] = "TRUE";
        const Doc* d = find(name, filter);
        Grid<T> f;
        bool inc = true;
        vector<vector<T> > v;
        unjudged = false;
        bool ok = d && decode(*d, f, inc, v);
        if (unjudged) return;
        bool calc = c.coin(), ext = c.chance(60);
        double def = -9999;
        if (c.chance(30)) def = c.pick({0., 7., 33.});
        // a mask
        Mask<M>* mask = nullptr;
        bool fitting = false;
        if (c.chance(55)) {
            if (!masks.empty() && c.chance(30)) mask = masks[c.below(masks.size())].get();
            else {
                std::unique_ptr<Mask<M> > k(new Mask<M>());
                Grid<M>& m = k->g;
                m.nodata = pick_nodata<M>(c);
                m.dx = ok ? f.dx : 1; m.xll = ok ? f.xll : 0; m.yll = ok ? f.yll : 0;
                m.rows = ok ? f.rows : 3; m.cols = ok ? f.cols : 3;
                m.lyrs = 1;
                if (c.chance(50) && !(ok && !inc)) {
                    m.rows = (int)c.range(1, 7); m.cols = (int)c.range(1, 7);
                    m.dx *= c.pick({1., 1., 1., 0.5, 2.});
                    m.xll += m.dx * (double)c.range(-3, 3) * 0.5; m.yll += m.dx * (double)c.range(-3, 3) * 0.5;
                }
                fill(c, m, (int)c.pick({0, 20, 40, 80}));
                if (ok && !inc && c.chance(80)) {  // exactly as many valid cells
                    vector<int> all(m.cells());
                    for (int i = 0; i < m.cells(); i++) all[i] = i;
                    for (int i = m.cells() - 1; i > 0; i--) std::swap(all[i], all[c.below((uint64_t)i + 1)]);
                    for (int i = 0; i < m.cells(); i++) m.v[0][all[i]] = i < (int)v[0].size() ? small_value(c, m.nodata) : m.nodata;
                }
                k->r = make_raster(m, c.chance(20));
                if (c.chance(30)) k->r->SetCalcPositions();
                mask = k.get();
                masks.push_back(std::move(k));
            }
        }
        std::unique_ptr<Obj<T, M> > e(new Obj<T, M>());
        e->g = f;
        if (ok && inc) {
            if (mask) ok = masked(f, mask->g, calc, ext, def, *e);
            else if (calc) { e->pos = true; drop_invalid(e->g); e->stored = valid_cells(e->g); }
        } else if (ok) {
            ok = false;
            if (mask && ext && mask->g.rows == f.rows && mask->g.cols == f.cols && valid_cells(mask->g).size() == v[0].size()) {
                fitting = ok = true;
                e->pos = true;
                e->stored = valid_cells(mask->g);
                e->g.v.assign(f.lyrs, vector<T>(f.cells(), f.nodata));
                for (int l = 0; l < f.lyrs; l++) for (size_t i = 0; i < e->stored.size(); i++) e->g.v[l][e->stored[i]] = v[l][i];
            }
        }
        bool none = ok && e->pos && e->stored.empty();
        int how = (int)c.below(4);
        if (objs.empty() && how == 2) how = 0;
        int fault = c.chance(8) ? 1 : 0;
        size_t used = objs.empty() ? 0 : c.below(objs.size());
        c.note() << "read " << name << " " << options_text(opts) << (calc ? "calc_pos " : "") << (mask ? "mask " + mask->g.str() + (ext ? " use_mask_ext" : "") : "") << (def != -9999 ? format(" default %g", def) : "")
                 << (how == 2 ? format(" into raster %d", (int)used) : how == 3 ? " constructed" : "") << (fault ? " fault" : "") << "; ";
        if (fault && d) { fake::server.fail_read = 1; ok = none = false; }
        clsRasterData<M>* mp = mask ? mask->r.get() : nullptr;
        bool got;
        if (how == 0) { e->r.reset(R::Init(gfs.get(), name.c_str(), calc, mp, ext, def, opts)); got = e->r != nullptr; }
        else if (how == 3) { e->r.reset(new R(gfs.get(), name.c_str(), calc, mp, ext, def, opts)); got = e->r->ValidateRasterData(); }
        else {
            if (how == 1) e->r.reset(new R());
            else { e->r = std::move(objs[used]->r); objs.erase(objs.begin() + (long)used); }
            got = e->r->ReadFromMongoDB(gfs.get(), name, calc, mp, ext, def, opts);
        }
        fake::server.fail_read = 0;
        string kind = mask ? fitting ? "valid cells by mask" : "mask" : "no mask";
        if (none) { c.label("no valid cell"); return; }
        c.eq(got, ok, "result of reading " + name);
        if (!ok) {
            c.label(!d ? "missing" : "refused, " + kind);
            if (e->r) {
                c.check(!e->r->ValidateRasterData(), "a raster that could not be read has data");
                c.eq(e->r->GetCellNumber(), -1, "cells of a raster that could not be read");
            }
            return;
        }
        reads++;
        if (writes && e->g.cells() > 2) c.nontrivial();
        c.label((how == 2 ? "again, " : "") + kind);
        verify(*e, "the raster read");
        c.eq(e->r->Is2DRaster(), f.lyrs > 1, "dimension of the raster read");
        c.eq(e->r->GetCoreName(), name, "core name of the raster read");
        const STRING_MAP& o = e->r->GetOptions();
        for (auto& x : d->meta) {
            if (is_header(x.first) || (mask && x.first == "SRS")) continue;
            auto it = o.find(x.first);
            c.check(it != o.end() && shows(it->second, x.second), "option " + x.first + " of the raster read");
        }
        if (objs.size() < 4) objs.push_back(std::move(e));
    }
    // valid data read to positions known before
    void preassigned() {
        size_t oi = c.below(objs.size());
        Obj<T, M>& o = *objs[oi];
        if (!o.pos) return;
        string name = c.pick({string("dem"), string("slope"), string("dem_2"), string("other")});
        if (!docs.empty() && c.chance(90)) {
            vector<string> fit;
            for (auto& d : docs) if (d.text("INCLUDE_NODATA") == "FALSE") fit.push_back(d.name);
            if (!fit.empty()) name = c.pick(fit);
        }
        STRING_MAP opts;
        opts["INCLUDE_NODATA"] = "FALSE";
        int times = c.coin() ? 1 : 2;
        std::unique_ptr<R> r(new R());
        r->SetHeader(o.r->GetRasterHeader());
        int n = 0, **p = nullptr, *x = nullptr;
        o.r->GetRasterPositionData(&n, &p);
        c.check(r->SetPositions(n, p), "setting positions");
        o.r->GetRasterPositionData(&n, &x);
        c.check(r->SetPositions(n, x), "setting positions");
        const Doc* d = find(name, opts);
        Grid<T> f;
        bool inc = false;
        vector<vector<T> > v;
        unjudged = false;
        bool ok = d && decode(*d, f, inc, v);
        if (unjudged) return;
        ok = ok && f.rows == o.g.rows && f.cols == o.g.cols && f.lyrs == o.g.lyrs && v[0].size() == o.stored.size();
        c.note() << "read " << name << " to the positions of raster " << oi << "; ";
        for (int k = 0; k < times; k++) {
            bool got = r->ReadFromMongoDB(gfs.get(), name, false, nullptr, true, NODATA_VALUE, opts);
            c.eq(got, ok, "result of reading to known positions");
            if (!ok) return;
            reads++;
            c.label("known positions");
            c.nontrivial();
            Grid<T> g = o.g;
            g.nodata = (T)o.g.nodata;
            g.v.assign(g.lyrs, vector<T>(g.cells(), g.nodata));
            for (int l = 0; l < g.lyrs; l++) for (size_t i = 0; i < o.stored.size(); i++) g.v[l][o.stored[i]] = v[l][i];
            same_header(c, *r, g, "the raster of known positions");
            same_cells(c, *r, g, "the raster of known positions");
            c.eq(positions_of(*r), o.stored, "positions of the raster of known positions");
        }
    }
    void change() {
        Obj<T, M>& o = *objs[c.below(objs.size())];
        int i = (int)c.below((uint64_t)o.cells());
        int cell = o.cell(i), l = (int)c.below((uint64_t)o.g.lyrs);
        T x = small_value(c, o.g.nodata);
        o.r->SetValue(cell / o.g.cols, cell % o.g.cols, x, l + 1);
        o.g.v[l][cell] = x;
        c.note() << "set a value; ";
    }
    void run() {
        create();
        size_t n = c.len(3, 14);
        for (size_t k = 0; k < n; k++) {
            switch (c.weighted({2, 6, 2, 7, 1, 1})) {
            case 0: if (objs.size() < 3) create(); break;
            case 1: if (!objs.empty()) write(); break;
            case 2: foreign(); break;
            case 3: if (docs.empty() && !objs.empty() && !c.chance(5)) write(); else read(); break;
            case 4: if (!objs.empty()) preassigned(); break;
            default: if (!objs.empty()) change(); break;
            }
            verify_all();
        }
        objs.clear();
        masks.clear();
        close();
    }
};
template <class T, class M> void world(Ctx& c) { World<T, M>(c).run(); }
void g01(Ctx& c) {
    switch (c.below(6)) {
    case 0: world<float, int32_t>(c); break;
    case 1: world<int32_t, int32_t>(c); break;
    case 2: world<double, float>(c); break;
    case 3: world<int16_t, u8>(c); break;
    case 4: world<u8, int32_t>(c); break;
    default: world<int64_t, double>(c); break;
    }
}
PBT_STATIC([] {
    auto& p = add("G01", 40000, 600000, "a raster of at least three cells is read after one was stored", g01);
    p.assumptions = {"The MongoDB driver is replaced by an in-process stand-in with its documented behaviour.", "Values and NoData are within the range of the chosen data type."};
});
}  // namespace
